"""Content negotiation against an independent model of the rules."""
import itertools
from fractions import Fraction

from vf.engine import Scenario
from vf import gen

RULE = ('generated sets of representations and accept headers; the '
        'representation chosen is compared with an independent model; '
        'distinct = hash of representations and headers')
ASSUMPTIONS = [
    'media ranges in lower case and without parameters other than q',
    'qualities are decimal numbers; candidates whose products differ by less '
    'than rounding noise are not compared',
]
REQUIRED = {'parsed-headers': 100, 'selected': 8000, 'not-acceptable': 1500, 'excluded-by-q0': 800,
            'specific-overrides-general': 500, 'qs-decides': 200,
            'tie-last-wins': 500, 'language': 2000, 'charset': 2000,
            'malformed': 500, 'absent': 1000, 'method-405': 200,
            'head-falls-back': 200, 'endpoint-501': 100, 'end-to-end': 2000,
            'order-independent': 500, 'added-later': 5000, 'lookup-found': 4000,
            'lookup-405': 1000, 'lookup-501': 1000, 'head-get': 300,
            'head-own': 500, 'registered-again': 5000}

TYPES = ('text/html', 'text/plain', 'application/json', 'application/xml',
         'application/xhtml+xml', 'image/png', 'text/x-foo',
         'application/vnd.api+json')
METHODS = ('GET', 'GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'X-CUSTOM')
LANGS = ('en', 'en-GB', 'en-US', 'de', 'de-CH', 'de-CH-1996', 'fr', 'e',
         'english', 'en-GB-x-y', 'i-klingon', 'i', 'x-pig-latin', 'x')
CHARSETS = ('utf-8', 'iso-8859-1', 'ascii', 'utf-16', 'utf')
import re  # noqa: E402
TYPES += tuple(x for x in gen.LIT['new_strings']
               if re.fullmatch('[a-z0-9]+/[a-z0-9]+', x))
LANGS += tuple(x for x in gen.LIT['new_strings']
               if re.fullmatch('[a-z]{2}(-[a-zA-Z0-9]+)*', x))
CHARSETS += tuple(x for x in gen.LIT['new_strings']
                  if re.fullmatch('[a-z0-9]+(-[a-z0-9]+)*', x))
BAD = {'type': ('text', 'text/', '/html', 'text/html;q=x', 'text/html;q',
                ';q=1', 'a/b;q=', '@/@', 'text/html;q=1;level', '%',
                'text/html, bogus', '=', 'q=1', 'text/plain;q="0.5"',
                'image/png;q="1"', "text/html;q='0'", 'text/html;q=0,5x'),
       'other': (';q=1', 'en;q=x', '@', 'en;q', 'en;level=1', '%', '=',
                 'en, ;q=0.5', 'en;q=0.5;x=y', 'de;q="0.5"',
                 "utf;q='0'")}


def qval(src):
    """(text or None, exact value)"""
    k = src.draw(6)
    if k < 2:
        return None, Fraction(1)
    if k == 2:
        t = src.choice(('0', '0.0', '0.000', '0.'))
        return t, Fraction(0)
    if k == 3:
        t = src.choice(('1', '1.0', '1.000', '0.5', '0.9', '0.1', '0.8'))
    elif k == 4:
        t = '0.%d' % src.int(0, src.choice((999, 999, 99999)))
    else:
        t = src.choice(('0.001', '0.999', '0.3', '0.7', '0.25', '2', '5.5',
                        '-1'))
    v = Fraction(t)
    return t, min(max(v, Fraction(0)), Fraction(1))


def header(src, dim):
    """(header text or None, [(range, quality)])"""
    k = src.draw(12)
    star = '*/*' if dim == 'type' else '*'
    if k == 0:
        return None, [(star, Fraction(1))]
    if k == 1 and src.bool():
        bad = src.choice(BAD['type' if dim == 'type' else 'other'])
        return bad, [(star, Fraction(1))]
    if k == 2 and src.bool(1, 3):
        return src.choice(('', ' ', ',', ', ,')), [(star, Fraction(1))]
    pool = {'type': TYPES, 'lang': LANGS, 'charset': CHARSETS}[dim]
    out, text = [], []
    for _ in range(src.size(3, 70) + 1):
        r = src.choice(pool)
        m = src.draw(6)
        if m == 0:
            r = star
        elif m == 1 and dim == 'type':
            r = r.split('/')[0] + '/*'
        elif m == 2 and dim == 'lang':
            r = r.rsplit('-', 1)[0]
        t, q = qval(src)
        out.append((r, q))
        if t is not None:
            r += src.choice((';q=', '; q=', ' ; q = ', ';q=')) + t
        text.append(r)
    sep = src.choice((',', ', ', ' , ', ',,', ',\t'))
    s = sep.join(text)
    if src.draw(10) == 9:
        s = ' ' + s + ','
    return s, out


# -- the model ---------------------------------------------------------------

def type_rank(r, v):
    rt, rs = r.split('/')
    vt, vs = v.split('/')
    if rt not in ('*', vt) or rs not in ('*', vs):
        return None
    return (rt == vt, rs == vs)


def lang_rank(r, v):
    vp = v.split('-')
    if r == '*':
        return (-len(vp), 0)
    rp = r.split('-')
    if vp[:len(rp)] != rp:
        return None
    return (len(rp) - len(vp), len(rp))


def charset_rank(r, v):
    if r == '*':
        return (0,)
    return (1,) if r == v else None


def judge(ranges, value, rank):
    """None if not acceptable, else (quality, specificity)."""
    best = None
    for r, q in ranges:
        k = rank(r, value)
        if k is not None and (best is None or (k, q) > best):
            best = (k, q)
    if best is None or best[1] == 0:
        return None
    return (best[1], best[0])


def rate(rep, hdrs):
    """None, or a comparable key."""
    key = []
    t, l, c, qs = rep
    if t is not None:
        j = judge(hdrs[0], t, type_rank)
        if j is None:
            return None
        key.append((1, j[0] * qs, j[1]))
    else:
        key.append((0,))
    for v, h, rank in ((l, hdrs[1], lang_rank), (c, hdrs[2], charset_rank)):
        if v is not None:
            j = judge(h, v, rank)
            if j is None:
                return None
            key.append((1, j[0], j[1]))
        else:
            key.append((0,))
    key.append(qs)
    return key


def choose(reps, hdrs):
    """Indexes that may be chosen ([] = none acceptable)."""
    rated = [(i, rate(r, hdrs)) for i, r in enumerate(reps)]
    rated = [(i, k) for i, k in rated if k is not None]
    if not rated:
        return []
    top = max(k for _, k in rated)
    idx = [i for i, k in rated if k == top]
    best = [idx[-1]]
    # products that floating point can not tell apart reliably
    if top[0][0] == 1:
        for i, k in rated:
            if i not in idx and k[0][0] == 1 and \
                    abs(k[0][1] - top[0][1]) < Fraction(1, 10 ** 9):
                best.append(i)
        if len(best) == 1:
            exact = {reps[i][3] for i in idx}
            if len(exact) > 1:
                best = idx
    return best


def representation(src):
    t = src.choice(TYPES) if src.bool(4, 5) else None
    l = src.choice(LANGS) if src.bool(1, 3) else None
    c = src.choice(CHARSETS) if src.bool(1, 3) else None
    qs = src.choice(('1', '1', '1', '0.5', '0.9', '0.1', '0.25', '0.999',
                     '0.7', '0'))
    return (t, l, c, Fraction(qs))


def kwargs(src, rep):
    kw = {}
    if rep[0] is not None:
        kw['content_type'] = rep[0]
    if rep[1] is not None:
        kw['language'] = rep[1]
    if rep[2] is not None:
        kw['charset'] = rep[2]
    if rep[3] != 1 or src.bool():
        kw['qs'] = float(rep[3])
    return kw


def account(ev, reps, hdrs, raw, want):
    for r in reps:
        if r[0] is None:
            continue
        ks = [(type_rank(x, r[0]), q) for x, q in hdrs[0]]
        ks = [x for x in ks if x[0] is not None]
        if ks:
            m = max(ks)
            if m[1] == 0 and any(q for _, q in ks):
                ev.hit('specific-overrides-general')
            if m[1] == 0:
                ev.hit('excluded-by-q0')
    if any(r[1] for r in reps) and raw[1]:
        ev.hit('language')
    if any(r[2] for r in reps) and raw[2]:
        ev.hit('charset')
    if None in raw:
        ev.hit('absent')
    for i, h in enumerate(raw):
        if h is not None and h in BAD['type' if i == 0 else 'other']:
            ev.hit('malformed')
    if not want:
        ev.hit('not-acceptable')
        return
    keys = [rate(r, hdrs) for r in reps]
    top = keys[want[0]]
    if keys.count(top) > 1:
        ev.hit('tie-last-wins')
    noqs = [rate(r[:3] + (Fraction(1),), hdrs) for r in reps]
    if noqs[want[0]] is not None and \
            max(k for k in noqs if k is not None) != noqs[want[0]]:
        ev.hit('qs-decides')


def setup(src):
    n = src.size(4, 70) + 1
    reps = [representation(src) for _ in range(n)]
    if src.bool(1, 4):      # one dimension only: more interesting ties
        reps = [(r[0] or 'text/html', None, None, r[3]) for r in reps]
    hs = [header(src, 'type'), header(src, 'lang') if src.bool() else
          (None, [('*', Fraction(1))]),
          header(src, 'charset') if src.bool() else
          (None, [('*', Fraction(1))])]
    return reps, [h[0] for h in hs], [h[1] for h in hs]


def select(src, ev):
    from verktyg.accept import Representation, select_representation
    from verktyg.dispatch import Dispatcher, Binding
    from verktyg.exceptions import NotAcceptable
    reps, raw, hdrs = setup(src)
    want = choose(reps, hdrs)
    ev.note(representations=reps, headers=raw, want=want)
    account(ev, reps, hdrs, raw, want)
    if src.bool():
        objs = [Representation(**kwargs(src, r)) for r in reps]
        make = lambda r: Representation(**kwargs(src, r))
        add = objs.extend

        parsed = src.bool(1, 3)

        def call(raw):
            if parsed and None not in raw:
                from verktyg.accept import (
                    parse_accept_header, parse_accept_language_header,
                    parse_accept_charset_header)
                try:
                    raw = (parse_accept_header(raw[0]),
                           parse_accept_language_header(raw[1]),
                           parse_accept_charset_header(raw[2]))
                    ev.hit('parsed-headers')
                except ValueError:
                    pass
            return select_representation(
                list(objs), accept=raw[0], accept_language=raw[1],
                accept_charset=raw[2])
    else:
        objs = [Binding('n', object(), **kwargs(src, r)) for r in reps]
        if src.bool():
            d = Dispatcher(objs)
        else:
            k = src.int(0, len(objs))
            inner = Dispatcher(objs[:k])
            if src.bool():
                Dispatcher([inner])     # may be part of several
            d = Dispatcher([inner])
            d.add_bindings(*objs[k:])

        def make(r):
            return Binding('n', object(), **kwargs(src, r))

        def add(new):
            objs.extend(new)
            if src.bool():
                d.add_bindings(*new)
            else:
                d.add_bindings(Dispatcher(new))

        def call(raw):
            return d.lookup('n', accept=raw[0], accept_language=raw[1],
                            accept_charset=raw[2],
                            **src.choice(({}, {'method': 'GET'},
                                          {'method': 'HEAD'})))

    def run(raw):
        try:
            got = call(raw)
        except NotAcceptable:
            return None
        return [i for i, o in enumerate(objs) if o is got][-1]
    got = run(raw)
    ev.note(got=got)
    if want:
        ev.ok(got is not None, 'acceptable-representation-refused')
        ev.hit('selected')
        ev.ok(got in want, 'wrong-representation')
    else:
        ev.ok(got is None, 'unacceptable-representation-served')
    # the order of the ranges is irrelevant
    if src.bool(1, 4) and all(h is None or ';q=' in h or ',' in h
                              for h in raw):
        r2 = [h if h is None else ','.join(src.shuffle(h.split(',')))
              for h in raw]
        again = run(r2)
        ev.note(shuffled=r2, shuffled_got=again)
        ev.ok((again is None) == (not want) and
              (again is None or again in want), 'depends-on-range-order')
        ev.hit('order-independent')
    ev.key(reps, raw)
    # alternatives that are added later count from then on
    for _ in range(src.size(2)):
        more = [representation(src) for _ in range(src.int(0, 2))]
        reps = reps + more
        fresh = [make(r) for r in more]
        if src.bool(1, 3):
            # one that is registered already becomes the last one
            i = src.draw(len(objs))
            reps = reps + [reps[i]]
            fresh.append(objs[i])
            ev.hit('registered-again')
        add(fresh)
        if src.bool():
            _, raw, hdrs = setup(src)
        want = choose(reps, hdrs)
        got = run(raw)
        ev.note(representations=reps, headers=raw, want=want, got=got)
        ev.ok(got in want if want else got is None,
              'wrong-representation-after-more-were-added')
        ev.hit('added-later')
    ev.sample('selection', representations=reps, headers=raw, chosen=got)


def single(src, ev):
    """One value against one header: membership and quality."""
    from verktyg import accept as A
    dim = src.choice(('type', 'lang', 'charset'))
    raw, ranges = header(src, dim)
    if raw is None or raw in BAD['type'] or raw in BAD['other'] or \
            not raw.strip(' ,'):
        return
    pool, rank, parse, mk = {
        'type': (TYPES, type_rank, A.parse_accept_header,
                 A.parse_content_type_header),
        'lang': (LANGS, lang_rank, A.parse_accept_language_header,
                 A.parse_language_header),
        'charset': (CHARSETS, charset_rank, A.parse_accept_charset_header,
                    A.parse_charset_header)}[dim]
    v = src.choice(pool)
    acc = parse(raw)
    want = judge(ranges, v, rank)
    # a header of another request, read in between
    parse(src.choice(('*/*;q=0.3', 'x/y') if dim == 'type' else
                     ('*;q=0.3', 'xx')))
    ev.note(header=raw, value=v, want=want)
    obj = mk(v)
    ev.eq(obj in acc, want is not None, 'membership-differs')
    ev.eq(str(obj), v, 'value-text-differs')
    ev.eq([(r.value, round(float(r.q), 9)) for r in acc],
          [(r, round(float(q), 9)) for r, q in ranges], 'ranges-differ')
    if want is None:
        ev.raises(KeyError, lambda: acc[obj], 'quality-of-unacceptable')
    else:
        got = acc[obj]
        ev.ok(abs(got.quality - float(want[0])) < 1e-9, 'quality-differs',
              got=got.quality)
        exact = {'type': want[1] == (True, True),
                 'lang': want[1][0] == 0, 'charset': want[1] == (1,)}[dim]
        ev.eq(bool(got.exact_match), exact, 'exact-match-differs')
    ev.hit('single')
    ev.key('single', raw, v)


def end_to_end(src, ev):
    from verktyg.application import ApplicationBuilder
    from verktyg.routing import Route
    from verktyg.responses import Response
    from verktyg.exceptions import HTTPException
    from verktyg.views import View
    reps, raw, hdrs = setup(src)
    methods = [src.choice(('GET', 'GET', 'POST', 'PUT', 'HEAD'))
               for _ in reps]
    b = ApplicationBuilder()
    b.add_routes(Route('/n', endpoint='n'), Route('/none', endpoint='none'))
    calls = []

    def action(i):
        def view(app, req):
            calls.append(i)
            return Response('rep%d' % i)
        return view
    for i, r in enumerate(reps):
        if src.bool():
            b.add_bindings(View('n', action(i), methods=methods[i]
                                if src.bool() else [methods[i]],
                                **kwargs(src, r)))
        else:
            b.expose('n', methods=methods[i], **kwargs(src, r))(action(i))

    def err(app, req, t, e, tb):
        return Response('error', status=e.code)
    b.add_exception_handler(HTTPException, err)
    app = b()
    method = src.choice(('GET', 'GET', 'GET', 'HEAD', 'POST', 'DELETE'))
    endpoint = src.choice(('n',) * 9 + ('none',))
    names = ('Accept', 'Accept-Language', 'Accept-Charset')
    env = gen.environ('/' + endpoint, method=method,
                      headers=[(n, h) for n, h in zip(names, raw)
                               if h is not None])
    status = []
    body = b''.join(app(env, lambda s, h, e=None: status.append(s)))
    code = int(status[0].split()[0])
    ev.note(representations=list(zip(methods, reps)), headers=raw,
            method=method, endpoint=endpoint, status=status, calls=calls)
    ev.hit('end-to-end')
    if endpoint == 'none':
        ev.eq((code, calls), (501, []), 'unbound-endpoint')
        ev.hit('endpoint-501')
        return
    m = method
    if m not in methods and m == 'HEAD' and 'GET' in methods:
        m = 'GET'
        ev.hit('head-falls-back')
    if m not in methods:
        ev.eq((code, calls), (405, []), 'unbound-method')
        ev.hit('method-405')
        return
    idx = [i for i, x in enumerate(methods) if x == m]
    want = [idx[i] for i in choose([reps[i] for i in idx], hdrs)]
    if not want:
        ev.eq((code, calls), (406, []), 'unacceptable-representation-served')
        return
    ev.eq(code, 200, 'acceptable-representation-refused', want=want)
    ev.ok(len(calls) == 1 and calls[0] in want, 'wrong-view-called',
          want=want)
    if method != 'HEAD':
        ev.eq(body, b'rep%d' % calls[0], 'wrong-body')
    ev.key('e2e', list(zip(methods, reps)), raw, method)


def methods(src, ev):
    """Lookups and additions in any order, names, methods and nesting."""
    from verktyg.dispatch import Dispatcher, Binding
    from verktyg.views import View
    from verktyg.exceptions import (NotImplemented, MethodNotAllowed,
                                    NotAcceptable)
    d = Dispatcher()
    model = {}
    everything = []
    names = src.choice((('a', 'b'), ('a', 'b/c', ''), (1, 'a'), ('x',)))
    types = (None, 'text/html', 'text/plain')
    steps = []

    def binding():
        name, m = src.choice(names), src.choice(METHODS)
        t = src.choice(types)
        token = object()
        kw = {} if t is None else {'content_type': t}
        if src.bool(1, 3):
            ms = src.choice(([m], (m, 'LINK'), {m: 1}))
            o = View(name, lambda app, req: token, methods=ms, **kw)
            out = [(name, x, t, token) for x in ms]
        else:
            o = Binding(name, lambda app, req: token, m, **kw)
            out = [(name, m, t, token)]
        return o, out
    for _ in range(src.int(1, 14)):
        if src.bool(1, 3):
            new = [binding() for _ in range(src.int(1, 3))]
            flat = [x for _, out in new for x in out]
            k = src.draw(4)
            if k == 0:
                d.add_bindings(*[o for o, _ in new])
            elif k == 1:
                d.add_bindings(Dispatcher([o for o, _ in new]))
            elif k == 2:
                for o, _ in new:
                    d.add_bindings(o)
            else:
                inner = Dispatcher([new[0][0]])
                inner.add_bindings(*[o for o, _ in new[1:]])
                d = Dispatcher([d, inner])
            for name, m, t, o in flat:
                model.setdefault(name, {}).setdefault(m, []).append((t, o))
            everything += flat
            steps.append(('add', [x[:3] for x in flat]))
            continue
        name = src.choice(names + ('nowhere',))
        m = src.choice(METHODS + ('HEAD', 'GET', 'LINK'))
        a = src.choice(types + ('*/*', 'image/png'))
        kw = {} if a is None else {'accept': a}
        if m != 'GET' or src.bool():
            kw['method'] = m
        steps.append((name, m, a))
        ev.note(steps=steps)
        here = model.get(name)
        have = None if here is None else here.get(m) or (
            here.get('GET') if m == 'HEAD' else None)
        if here is None:
            ev.raises(NotImplemented, lambda: d.lookup(name, **kw),
                      'unbound-name')
            ev.hit('lookup-501')
            continue
        if not have:
            ev.raises(MethodNotAllowed, lambda: d.lookup(name, **kw),
                      'unbound-method')
            ev.hit('lookup-405')
            continue
        if m == 'HEAD':
            ev.hit('head-own' if 'HEAD' in here else 'head-get')
        # a type that is promised beats none
        fit = [o for t, o in have if t is not None and a in (
            None, '*/*', t)] or [o for t, o in have if t is None]
        if not fit:
            ev.raises(NotAcceptable, lambda: d.lookup(name, **kw),
                      'unacceptable')
            continue
        got = d.lookup(name, **kw)
        ev.ok(got(None, None) is fit[-1], 'wrong-binding', got=got)
        ev.eq((got.name, got.method), (name, 'GET' if m == 'HEAD' and
                                       'HEAD' not in here else m),
              'wrong-binding')
        ev.hit('lookup-found')
    # what is there can be taken over by another dispatcher, in order
    ev.eq(sorted((str(b.name), b.method) for b in d.get_bindings()),
          sorted((str(x[0]), x[1]) for x in everything), 'bindings-lost')
    ev.key(steps)
    ev.case()


def _sweep(ev, values, ranges, make_rep, arg):
    from verktyg.accept import Representation, select_representation
    from verktyg.exceptions import NotAcceptable
    dim = {'content_type': 0, 'language': 1, 'charset': 2}[arg]
    star = [[('*/*', Fraction(1))], [('*', Fraction(1))],
            [('*', Fraction(1))]]
    qs = ((';q=0', Fraction(0)), ('', Fraction(1)),
          (';q=0.5', Fraction(1, 2)), (';q=0.2', Fraction(1, 5)))
    options = [(r + t, (r, q)) for r in ranges for t, q in qs]
    objs = {v: Representation(**{arg: v}) for v in values}
    for n in (1, 2):
        for combo in itertools.product(options, repeat=n):
            text = ','.join(c[0] for c in combo)
            hdrs = list(star)
            hdrs[dim] = [c[1] for c in combo]
            for vs in itertools.permutations(values, 2):
                reps = [tuple([v if i == dim else None for i in range(3)] +
                              [Fraction(1)]) for v in vs]
                want = choose(reps, hdrs)
                kw = {('accept', 'accept_language',
                       'accept_charset')[dim]: text}
                try:
                    got = select_representation([objs[v] for v in vs], **kw)
                    got = 0 if got is objs[vs[0]] else 1
                except NotAcceptable:
                    got = None
                ev.case()
                ev.ok(got in want if want else got is None,
                      'wrong-representation', header=text, values=vs,
                      got=got, want=want)
                ev.hit('selected' if want else 'not-acceptable')


def sweep_types(ev):
    _sweep(ev, ('text/html', 'text/plain', 'image/html'),
           ('*/*', 'text/*', 'text/html', 'image/*', 'image/html'), None,
           'content_type')


def sweep_langs(ev):
    _sweep(ev, ('en', 'en-GB', 'en-GB-x', 'eng'),
           ('*', 'en', 'en-GB', 'e', 'en-G'), None, 'language')


def sweep_charsets(ev):
    _sweep(ev, ('utf-8', 'utf', 'ascii'),
           ('*', 'utf', 'utf-8', 'ascii'), None, 'charset')


SCENARIOS = [
    Scenario('select', select, 24000, 400000),
    Scenario('methods', methods, 6000, 80000),
    Scenario('single', single, 8000, 100000),
    Scenario('end-to-end', end_to_end, 6000, 80000),
]
DIRECTED = [('sweep-types', sweep_types), ('sweep-langs', sweep_langs),
            ('sweep-charsets', sweep_charsets)]
