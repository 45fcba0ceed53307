"""Headers is an ordered, case-insensitive multimap."""
from vf.engine import Scenario
from vf import gen

RULE = ('histories of operations on one header collection, compared after '
        'every operation with an independent list model; distinct = hash of '
        'the operation history')
ASSUMPTIONS = ['values without line breaks (that is C10); names are text']
REQUIRED = {'op': 2000, 'lookup': 2000, 'case-variant-lookup': 300,
            'replaced-duplicates': 50, 'stepped-slice': 300}


def name(src):
    k = src.draw(8)
    if k < 6:
        n = src.choice(('A', 'B', 'Set-Cookie', 'Content-Type', 'X-Long-Name',
                        'Etag', 'content-length', 'Stra\xdfe'))
    else:
        n = gen.token(src)
    m = src.draw(4)
    return (n, n.lower(), n.upper(), n.swapcase())[m]


def val(src):
    k = src.draw(5)
    if k < 3:
        return src.choice(('1', '2', 'x', '', 'v v'))
    return gen.value(src)


def raw(src, items):
    """The same pairs, as a program may give them: values as bytes, whole
    numbers as such, pairs as lists."""
    out = []
    for k, v in items:
        form = src.draw(6)
        if form == 0:
            try:
                v = v.encode('latin1')
            except UnicodeEncodeError:
                pass
        elif form == 1 and v.isascii() and v.isdigit() and v == str(int(v)):
            v = int(v)
        out.append([k, v] if form == 2 else (k, v))
    return out


class Model(object):
    def __init__(self, items=()):
        self.l = list(items)

    def all(self, k):
        return [v for n, v in self.l if n.lower() == k.lower()]

    def set(self, k, v):
        out, done = [], False
        for n, o in self.l:
            if n.lower() == k.lower():
                if not done:
                    out.append((k, v))
                    done = True
            else:
                out.append((n, o))
        if not done:
            out.append((k, v))
        self.l = out

    def remove(self, k):
        self.l = [(n, o) for n, o in self.l if n.lower() != k.lower()]


def check(ev, h, m, probes):
    ev.eq(list(h), m.l, 'content-differs')
    ev.eq(len(h), len(m.l), 'len-differs')
    wl = h.to_wsgi_list()
    ev.eq(wl, m.l, 'wsgi-list-differs')
    wl.append(('X-Server', 'added'))
    wl[:1] = []
    ev.eq(list(h), m.l, 'wsgi-list-shared')
    for k in probes:
        h.getlist(k).append('x')
        h.get_all(k).append('x')
        want = m.all(k)
        ev.hit('lookup')
        if any(n != k and n.lower() == k.lower() for n, _ in m.l):
            ev.hit('case-variant-lookup')
        ev.eq(h.getlist(k), want, 'getlist-differs', key=k)
        ev.eq(h.get_all(k), want, 'get_all-differs', key=k)
        ev.eq(k in h, bool(want), 'contains-differs', key=k)
        ev.eq(h.get(k, 'DEF'), want[0] if want else 'DEF', 'get-differs', key=k)
        if want:
            ev.eq(h[k], want[0], 'getitem-differs', key=k)
        else:
            ev.raises(KeyError, lambda: h[k], 'missing-key-found', key=k)
        ints = []
        for v in want:
            try:
                ints.append(int(v))
            except ValueError:
                pass
        ev.eq(h.getlist(k, type=int), ints, 'getlist-type-differs', key=k)
        try:
            first = int(want[0]) if want else 'DEF'
        except ValueError:
            first = 'DEF'
        ev.eq(h.get(k, 'DEF', type=int), first, 'get-type-differs', key=k)
        ev.eq(h.get(k, 'DEF', type=bool), bool(want[0]) if want else 'DEF',
              'get-type-differs', key=k)


def history(src, ev):
    from verktyg.http import Headers
    init = src.list(lambda: (name(src), val(src)), 4, 30)
    form = src.draw(4)
    ops = [('init', form, init)]
    if form == 0:
        # a list is taken as it is, and text when it is sent
        ev.eq(Headers(raw(src, init)).to_wsgi_list(), init,
              'wsgi-list-not-text')
        h, m = Headers(list(init)), Model(init)
    elif form == 1:
        h, m = Headers(iter(raw(src, init))), Model(init)
    elif form == 2:
        h, m = Headers(Headers(list(init))), Model(init)
    else:
        d = {}
        for k, v in init:
            d.setdefault(k, []).append(v)
        for k in d:
            if len(d[k]) == 1 and src.bool():
                d[k] = d[k][0]
            elif src.bool():
                d[k] = tuple(d[k])
        h = Headers(d)
        m = Model()
        for k, v in d.items():
            for x in ([v] if isinstance(v, str) else v):
                m.l.append((k, x))
    keys = [k for k, _ in init][:4] or ['A']
    check(ev, h, m, keys)
    n = src.size(8, 40)
    for _ in range(n):
        k, v = name(src), val(src)
        if keys and src.bool():
            k = src.choice(keys)
            if src.bool():
                k = k.swapcase()
        op = src.draw(16)
        ops.append((op, k, v))
        ev.note(ops=ops)
        ev.hit('op')
        if op == 0:
            h.add(k, v)
            m.l.append((k, v))
        elif op == 1:
            h.add_header(k, v)
            m.l.append((k, v))
        elif op in (2, 3):
            if len(m.all(k)) > 1:
                ev.hit('replaced-duplicates')
            if op == 2:
                h[k] = v
            else:
                h.set(k, v)
            m.set(k, v)
        elif op == 4:
            if src.bool():
                del h[k]
            else:
                h.remove(k)
            m.remove(k)
        elif op == 5:
            want = m.all(k)
            if want:
                ev.eq(h.pop(k), want[0], 'pop-differs', key=k)
                m.remove(k)
            elif src.bool():
                ev.eq(h.pop(k, 'DEF'), 'DEF', 'pop-default-differs', key=k)
            else:
                ev.raises(KeyError, lambda: h.pop(k), 'pop-missing', key=k)
        elif op == 6:
            if m.l:
                if src.bool():
                    ev.eq(h.popitem(), m.l.pop(), 'popitem-differs')
                else:
                    ev.eq(h.pop(), m.l.pop(), 'pop-last-differs')
        elif op == 7:
            want = m.all(k)
            if src.bool(1, 4):
                iv = src.int(0, 99)
                h.setdefault(k, iv)
                if not want:
                    m.l.append((k, str(iv)))
            else:
                got = h.setdefault(k, v)
                ev.eq(got, want[0] if want else v, 'setdefault-differs',
                      key=k)
                if not want:
                    m.l.append((k, v))
        elif op == 8:
            more = src.list(lambda: (name(src), val(src)), 3)
            if src.bool():
                h.extend(raw(src, more))
                m.l.extend(more)
            else:
                d = {}
                for a, b in more:
                    d.setdefault(a, []).append(b)
                h.extend(d)
                m.l.extend((a, b) for a in d for b in d[a])
        elif op == 9:
            if src.draw(4) == 3:
                h.clear()
                m.l = []
        elif op == 10 and m.l:
            i = src.int(0, len(m.l) - 1)
            if src.bool():
                i -= len(m.l)
            ev.eq(h[i], m.l[i], 'index-differs', index=i)
            what = src.draw(3)
            if what == 0:
                h[i] = raw(src, [(k, v)])[0]
                m.l[i] = (k, v)
            elif what == 1:
                del h[i]
                del m.l[i]
            else:
                ev.eq(h.pop(i), m.l.pop(i), 'pop-index-differs')
        elif op == 11:
            a = src.int(0, len(m.l))
            b = src.int(0, len(m.l))
            ev.eq(list(h[a:b]), m.l[a:b], 'slice-differs')
            if src.bool():
                rep = src.list(lambda: (name(src), val(src)), 2)
                h[a:b] = raw(src, rep)
                m.l[a:b] = rep
            elif src.bool():
                del h[a:b]
                del m.l[a:b]
            else:
                sl = slice(src.choice((None, a)), src.choice((None, b)),
                           src.choice((1, 2, 3, -1, -2)))
                ev.eq(list(h[sl]), m.l[sl], 'slice-differs')
                rep = [(name(src), val(src)) for _ in m.l[sl]]
                how = src.draw(3)
                if how == 0 and len(rep) > 1 and sl.step != 1:
                    # as many values as places, or nothing is changed
                    ev.raises(ValueError, lambda: h.__setitem__(sl, rep[1:]),
                              'too-few-for-slice')
                elif how == 1:
                    h[sl] = raw(src, rep)
                    m.l[sl] = rep
                else:
                    del h[sl]
                    del m.l[sl]
                ev.hit('stepped-slice')
        elif op == 12:
            c = h.copy() if src.bool() else __import__('copy').copy(h)
            ev.eq(list(c), m.l, 'copy-differs')
            ev.ok(c == h, 'copy-not-equal')
            c.add('Z', 'z')
            ev.eq(list(h), m.l, 'copy-shares-state')
            ev.ok(c != h, 'different-headers-equal')
        elif op == 13:
            ev.eq(list(h.items(lower=True)),
                  [(a.lower(), b) for a, b in m.l], 'items-lower-differs')
            ev.eq(list(h.keys()), [a for a, _ in m.l], 'keys-differ')
            ev.eq(list(h.values()), [b for _, b in m.l], 'values-differ')
        elif op == 14:
            iv = src.int(0, 99)
            if src.bool():
                h.add(k, iv)
                m.l.append((k, str(iv)))
            else:
                h[k] = ('%d' % iv).encode('ascii')
                m.set(k, str(iv))
        elif op == 15:
            ev.eq(str(h), ''.join('%s: %s\r\n' % x for x in m.l) + '\r\n',
                  'wire-format-differs')
        if k not in keys and len(keys) < 8:
            keys.append(k)
        probes = [src.choice(keys), src.choice(keys).swapcase(), k]
        check(ev, h, m, probes)
    ev.key(ops)
    ev.sample('history', ops=ops, final=m.l)


def helpers(src, ev):
    """remove_entity_headers / remove_hop_by_hop_headers keep the rest."""
    from verktyg import http
    names = ['Allow', 'content-encoding', 'Content-Language', 'Content-Length',
             'content-location', 'Content-MD5', 'Content-Range', 'Content-Type',
             'Expires', 'Last-Modified', 'Connection', 'keep-alive', 'TE',
             'Proxy-Authenticate', 'Proxy-Authorization', 'trailer',
             'Transfer-Encoding', 'Upgrade', 'ETag', 'Date', 'Vary', 'X-A',
             'Set-Cookie', 'Location', 'Cache-Control']
    entity = {x.lower() for x in names[:10]}
    hop = {x.lower() for x in names[10:18]}
    items = src.list(lambda: (src.choice(names), val(src)), 6, 30)
    ev.note(items=items)
    for cls in (list, http.Headers):
        h = cls(list(items))
        http.remove_entity_headers(h)
        ev.eq(list(h), [(k, v) for k, v in items if k.lower() not in entity or
                        k.lower() in ('expires', 'content-location')],
              'remove-entity-headers')
        h = cls(list(items))
        http.remove_entity_headers(h, allowed=['X', 'CONTENT-TYPE'])
        ev.eq(list(h), [(k, v) for k, v in items if k.lower() not in entity or
                        k.lower() == 'content-type'],
              'remove-entity-headers-allowed')
        allowed = src.list(lambda: src.choice(names).swapcase(), 4)
        h = cls(list(items))
        given = src.choice((list, tuple, set, iter))(allowed)
        http.remove_entity_headers(h, given)
        ok = {x.lower() for x in allowed}
        ev.eq(list(h), [(k, v) for k, v in items if k.lower() not in entity or
                        k.lower() in ok],
              'remove-entity-headers-chosen', allowed=allowed)
        h = cls(list(items))
        http.remove_entity_headers(h)
        ev.eq(list(h), [(k, v) for k, v in items if k.lower() not in entity or
                        k.lower() in ('expires', 'content-location')],
              'remove-entity-headers-again')
        h = cls(list(items))
        http.remove_hop_by_hop_headers(h)
        ev.eq(list(h), [(k, v) for k, v in items if k.lower() not in hop],
              'remove-hop-by-hop-headers')
    ev.hit('header-class-filter')
    ev.key('helpers', items)


def environ_headers(src, ev):
    """The read only view of a WSGI environ behaves like a header map."""
    from verktyg.wsgi import EnvironHeaders
    env = gen.environ()
    del env['HTTP_HOST']
    ct = src.choice(('text/plain', '', 'a/b; c=d'))
    env['CONTENT_TYPE'] = ct
    want = {'content-type': ct, 'content-length': '0'}
    for _ in range(src.size(5, 20)):
        k = src.choice(('Accept', 'X-Foo-Bar', 'Cookie', 'X-A', 'If-None-Match',
                        'Content-Typed', 'Http-Foo', 'Content'))
        if src.draw(4) == 3:
            k = 'X-' + gen.text(src, gen.ASCII, 5, 60, 1)
        v = gen.latin1(src)
        env['HTTP_' + k.upper().replace('-', '_')] = v
        want[k.lower()] = v
    if src.bool():
        env['HTTP_CONTENT_TYPE'] = 'spoof'
        env['HTTP_CONTENT_LENGTH'] = '77'
    h = EnvironHeaders(env)
    ev.note(environ={k: v for k, v in env.items() if 'HTTP' in k})
    ev.eq({k.lower(): v for k, v in h}, want, 'environ-headers-differ')
    ev.eq(len(h), len(want), 'environ-headers-len')
    for k, v in want.items():
        for kk in (k, k.upper(), k.title()):
            ev.hit('lookup')
            ev.eq(h[kk], v, 'environ-headers-getitem', key=kk)
            ev.eq(h.get(kk), v, 'environ-headers-get', key=kk)
            ev.ok(kk in h, 'environ-headers-contains', key=kk)
            ev.eq(h.getlist(kk), [v], 'environ-headers-getlist', key=kk)
    ev.ok('X-Missing' not in h, 'environ-headers-missing')
    ev.eq(h.get('X-Missing', 5), 5, 'environ-headers-default')
    before = dict(env)
    for f in (lambda: h.add('a', 'b'), lambda: h.__setitem__('a', 'b'),
              lambda: h.__delitem__('a'), lambda: h.pop('a'),
              lambda: h.popitem(), lambda: h.set('a', 'b'),
              lambda: h.remove('a'), lambda: h.extend([('a', 'b')]),
              lambda: h.setdefault('a', 'b')):
        ev.raises(TypeError, f, 'environ-headers-mutable')
    ev.ok(env == before, 'environ-changed')
    # a view: later changes of the environ show
    for _ in range(src.int(1, 3)):
        k = src.choice(('Accept', 'X-Foo-Bar', 'X-New', 'X-A'))
        e = 'HTTP_' + k.upper().replace('-', '_')
        if src.bool(1, 3):
            env.pop(e, None)
            want.pop(k.lower(), None)
        else:
            want[k.lower()] = env[e] = gen.latin1(src)
        ev.eq({a.lower(): v for a, v in h}, want, 'environ-view-stale')
        ev.eq(h.get(k), want.get(k.lower()), 'environ-view-stale', key=k)
        ev.eq(k in h, k.lower() in want, 'environ-view-stale', key=k)
    ev.hit('environ-view')
    ev.key('env', sorted(want.items()))


SCENARIOS = [
    Scenario('history', history, 8000),
    Scenario('helpers', helpers, 1200),
    Scenario('environ-headers', environ_headers, 1500),
]
