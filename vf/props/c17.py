"""Conditional requests are answered correctly."""
import hashlib
import datetime

from vf.engine import Scenario
from vf.server import serve
from vf import gen, rfc

RULE = ('responses with every kind of validator are made conditional to '
        'requests with every kind of precondition and sent through a '
        'protocol monitor; a decision table gives the expected status; a '
        'caching client revalidates a changing resource over many requests '
        'and its copy is compared with the resource; distinct = hash of the '
        'validator combination')
ASSUMPTIONS = ['methods GET and HEAD (others are never made conditional)',
               'responses have status 200 before',
               'a listed weak tag is not compared with a strong current tag',
               'clients send If-None-Match only for responses with an etag '
               'or next to a valid date']
REQUIRED = {'case': 4000, 'not-modified': 1000, 'modified': 1000,
            'etag-match': 400, 'etag-differs': 400, 'date-match': 400,
            'date-older': 200, 'date-equal': 100, 'star': 100,
            'garbage': 300, 'sent-304': 500, 'sent-full': 500,
            'head': 500, 'post': 150, 'function': 1000, 'revalidated': 500,
            'refreshed': 500, 'history': 200, 'request-parsed': 500,
            'etag-generated': 500, 'etag-pairs-differ': 500,
            'weak-current': 300, 'both-forms': 300}


def tag(src):
    k = src.draw(6)
    if k < 4:
        return src.choice(('a', 'b', 'abc', 'A', 'ab', 'a-b', 'a,b', ' ',
                           'W/', 'a b', "'", '0', '\xe4', 'v1', 'v2'))
    if k == 4:
        return gen.token(src, 6, 40)
    return hashlib.md5(b'%d' % src.int(0, 9)).hexdigest()


class Setup(object):
    """Validators of a response and a request, and what must follow."""

    def __init__(self, src, ev, method=None):
        self.method = method or src.choice(('GET', 'GET', 'GET', 'HEAD'))
        # the current representation
        self.tag, self.weak = None, False
        if src.bool(3, 4):
            self.tag, self.weak = tag(src), src.bool(1, 3)
        self.lm = rfc.random_instant(src) if src.bool(2, 3) else None
        # the preconditions
        headers = []
        self.match, self.garbled = None, False
        if src.bool(2, 3):
            self.match = self.none_match(src, ev, headers)
        self.since = None
        ims = None
        k = 5 if self.garbled else src.draw(6)
        if k < 4:
            base = self.lm if self.lm is not None else \
                rfc.random_instant(src)
            d = src.choice((0, 0, 1, -1, 59, -3600, 86400, -86400 * 400,
                            86400 * 400, src.int(-100000, 100000)))
            t = base + d
            if not rfc.seconds(1000, 1, 1) <= t <= rfc.seconds(
                    9999, 12, 31):
                t = base
            ims = src.choice((rfc.imf, rfc.asctime))(t)
            self.since = t
        elif k == 4:
            ims = src.choice(('', 'yesterday', '0', '*', 'Thu',
                              'Sun, 99 Foo 2015 00:00:00 GMT', '"a"',
                              gen.text(src, gen.ASCII, 6)))
            ev.hit('garbage')
        if ims is not None:
            headers.append(('If-Modified-Since', ims))
        self.headers = headers
        self.expect = False     # not modified?
        if self.since is not None and self.lm is not None:
            self.expect = self.lm <= self.since
            ev.hit('date-match' if self.expect else 'date-older')
            if self.lm == self.since:
                ev.hit('date-equal')
        if self.tag is not None and self.match is not None:
            self.expect = self.match
            ev.hit('etag-match' if self.match else 'etag-differs')
            if self.weak:
                ev.hit('weak-current')

    def none_match(self, src, ev, headers):
        """Adds If-None-Match; True/False: does it list the tag?"""
        k = src.draw(8)
        if k == 7:
            headers.append(('If-None-Match', '*'))
            ev.hit('star')
            return True
        if k == 6 and self.tag is not None:
            # no tag in here
            s = src.choice(('"', '""', 'W/', '"x', 'x"', '\\', ';', 'W/"',
                            '"" ""', 'nothing', '"\xff\xfe"'))
            if self.tag in s:
                s = '"-no-such-tag-"'
            headers.append(('If-None-Match', s))
            ev.hit('garbage')
            self.garbled = True     # counts as absent or as no match
            return False
        listed = []
        for _ in range(src.size(4, 80, 16)):
            x = tag(src)
            if x != self.tag:
                listed.append((x, src.bool(1, 3)))
        here = False
        if self.tag is not None and src.bool():
            here = True
            listed.insert(src.draw(len(listed) + 1),
                          (self.tag, self.weak and src.bool()))
            if src.bool(1, 4):
                # the weak form of it is listed, too
                listed.insert(src.draw(len(listed) + 1), (self.tag, True))
                ev.hit('both-forms')
        if not listed:
            return None
        headers.append(('If-None-Match', src.choice((', ', ',', ' , ')).join(
            (src.choice(('W/', 'w/')) if w else '') + '"%s"' % x
            for x, w in listed)))
        return here


BODY = (b'', b'x', b'hello world', b'a' * 5000)


def response(src, s, body=None):
    from verktyg.responses import Response
    if body is None:
        body = src.choice(BODY)
    k = src.draw(3)
    given = body
    if k == 1:
        given = [body[:3], body[3:]]
    elif k == 2:
        given = iter([body[:3], body[3:]])
    r = Response(given, mimetype='text/plain')
    if s.tag is not None:
        r.set_etag(s.tag, weak=s.weak)
    if s.lm is not None:
        r.last_modified = rfc.naive(s.lm)
    for i in range(src.size(2)):
        r.headers.add('X-%d' % i, 'v')
    if src.bool(1, 3):
        # dated by the application, which is kept
        r.headers['Date'] = 'Sun, 06 Nov 1994 08:49:37 GMT'
    return r, body


def sent(src, ev):
    s = Setup(src, ev)
    ev.note(method=s.method, tag=s.tag, weak=s.weak, modified=s.lm,
            request=s.headers, expected=304 if s.expect else 200)
    r, body = response(src, s)
    before = list(r.headers)
    env = gen.environ(method=s.method, headers=s.headers)
    from verktyg.requests import Request
    given = Request(env) if src.bool() else env
    ev.ok(r.make_conditional(given) is r, 'returns-itself')
    ev.eq(r.status_code, 304 if s.expect else 200, 'status')
    res = serve(r, env, ev)
    ev.eq(res.code, 304 if s.expect else 200, 'sent-status')
    if s.expect:
        ev.eq(res.body, b'', 'body-with-304')
        ev.eq(res.get('Content-Type'), [], 'entity-header-with-304')
        ev.hit('sent-304')
        ev.hit('not-modified')
        keep = [h for h in before if h[0].lower() in ('etag',) or
                h[0] == 'Date' or h[0].startswith('X-')]
    else:
        ev.eq(res.body, b'' if s.method == 'HEAD' else body, 'full-body')
        keep = [h for h in before if h[0] != 'Content-Length']
        ev.hit('sent-full')
        ev.hit('modified')
    for k, v in keep:
        ev.ok((k, v) in res.headers, 'header-lost', header=(k, v))
    ev.eq(len(res.get('Date')), 1, 'date-header')
    if s.method == 'HEAD':
        ev.hit('head')
    ev.hit('case')
    ev.key(s.method, s.tag, s.weak, s.lm, s.headers)
    ev.case()


def others(src, ev):
    """Other methods are answered in full."""
    s = Setup(src, ev, src.choice(('POST', 'PUT', 'DELETE', 'PATCH',
                                   'OPTIONS')))
    r, body = response(src, s)
    before = list(r.headers)
    env = gen.environ(method=s.method, headers=s.headers)
    ev.note(method=s.method, request=s.headers)
    r.make_conditional(env)
    ev.eq(r.status_code, 200, 'other-method-status')
    ev.eq(list(r.headers), before, 'other-method-headers')
    ev.eq(serve(r, env, ev).body, body, 'other-method-body')
    ev.hit('post')
    ev.case()


def function(src, ev):
    """is_resource_modified itself."""
    from verktyg.http import is_resource_modified, quote_etag
    s = Setup(src, ev)
    env = gen.environ(method=s.method, headers=s.headers)
    kw = {}
    if s.tag is not None:
        kw['etag'] = quote_etag(s.tag, s.weak)
    if s.lm is not None:
        k = src.draw(3)
        kw['last_modified'] = (
            rfc.naive(s.lm), rfc.imf(s.lm), rfc.naive(s.lm).replace(
                microsecond=src.choice((1, 999999))))[k]
    ev.note(method=s.method, arguments=kw, request=s.headers)
    ev.eq(is_resource_modified(env, **kw), not s.expect, 'function')
    ev.hit('function')
    # an etag made from the data
    data = gen.text(src).encode('utf-8')
    h = hashlib.md5(data).hexdigest()
    from verktyg.http import generate_etag
    e = generate_etag(data)
    ev.eq(e, generate_etag(bytes(bytearray(data))), 'etag-of-same-data')
    other = data + b'x' if src.bool() else b'x' + data
    ev.ok(generate_etag(other) != e, 'etag-of-different-data', data=data,
          other=other)
    ev.hit('etag-pairs-differ')
    env = gen.environ(headers=[('If-None-Match', '"zzz", "%s"' % e)])
    ev.ok(not is_resource_modified(env, data=data), 'data-unmodified')
    ev.ok(is_resource_modified(env, data=other), 'data-modified')
    ev.raises(TypeError, lambda: is_resource_modified(env, h, data),
              'both-accepted')
    ev.key(s.method, kw, s.headers)
    ev.case()


def response_etags(src, ev):
    """set_etag, get_etag, add_etag, freeze."""
    from verktyg.responses import Response
    data = gen.text(src).encode('utf-8')
    same = Response(data)
    other = Response([src.choice((
        data + b'.', data + b'\0', data + b' ', data + b'\n', b' ' + data,
        data[:-1] + bytes([data[-1] ^ 0x20]) if data else b'x',
        data + data if data else b'x', data[1:] if data else b'\0'))])
    r = Response([data[:2], data[2:]] if src.bool() else data)
    ev.eq(r.get_etag(), (None, None), 'etag-before')
    weak = src.bool()
    r.add_etag(weak=weak)
    same.add_etag()
    other.add_etag()
    ev.note(data=data)
    got = r.get_etag()
    ev.eq(got[1], weak, 'etag-weakness')
    ev.eq(got[0], same.get_etag()[0], 'etag-of-same-data')
    ev.ok(got[0] != other.get_etag()[0], 'etag-of-different-data')
    ev.ok(got[0], 'etag-empty')
    t, w = tag(src), src.bool()
    r.set_etag(t, weak=w)
    ev.eq(r.get_etag(), (t, w), 'etag-read-back')
    r.add_etag()
    ev.eq(r.get_etag(), (t, w), 'etag-overwritten')
    r.freeze()
    ev.eq(r.get_etag(), (t, w), 'etag-overwritten-by-freeze')
    r.add_etag(overwrite=True)
    ev.eq(r.get_etag(), (got[0], False), 'etag-not-overwritten')
    # the tag follows the body when it is asked to
    now = data + src.choice((b'+', b'more', b'\0'))
    if src.bool():
        r.set_data(now)
    else:
        r.stream.write(now[len(data):])
    r.add_etag(overwrite=True)
    w = src.bool()
    r.add_etag(overwrite=True, weak=w)
    ev.eq(r.get_etag()[1], w, 'etag-weakness')
    r.add_etag(overwrite=True)
    fresh = Response(now)
    fresh.add_etag()
    ev.eq(r.get_etag(), fresh.get_etag(), 'etag-of-changed-body')
    ev.hit('etag-renewed')
    from verktyg.responses import BaseResponse, ETagResponseMixin

    class Frozen(ETagResponseMixin, BaseResponse):
        pass
    r = Frozen(iter([data]))
    if src.bool():
        r.freeze()
        ev.eq(r.get_etag(), (got[0], False), 'etag-of-freeze')
    else:
        r.freeze(no_etag=True)
        ev.eq(r.get_etag(), (None, None), 'etag-of-freeze')
    ev.eq(r.get_data(), data, 'data-after-freeze')
    ev.hit('etag-generated')
    ev.key(data, t, w)
    ev.case()


def parsed(src, ev):
    """The headers as the request reports them."""
    from verktyg.requests import Request
    strong = src.list(lambda: tag(src), 3)
    weak = src.list(lambda: tag(src), 2)
    text = ', '.join(src.shuffle(['"%s"' % x for x in strong] +
                                 ['W/"%s"' % x for x in weak]))
    t, u = rfc.random_instant(src), rfc.random_instant(src)
    bad = src.bool(1, 4)
    z = src.choice(('z', tag(src), rfc.imf(t), rfc.asctime(u)))
    other = src.choice((('"%s"' % z, z), ('W/"%s"' % z, z)))
    r = Request(gen.environ(headers=[
        ('If-Match', text), ('If-None-Match', '*' if bad else text),
        ('If-Modified-Since', rfc.imf(t)),
        ('If-Unmodified-Since', 'never' if bad else rfc.rfc850(u)
         if 1969 <= rfc.naive(u).year <= 2068 else rfc.asctime(u)),
        ('If-Range', rfc.imf(t) if bad else other[0])]))
    ev.note(tags=text)
    ev.eq(r.if_match.as_set(), set(strong), 'if-match')
    ev.eq(r.if_match.as_set(True), set(strong + weak), 'if-match-weak')
    for x in strong + weak:
        ev.eq(x in r.if_match, x in strong, 'if-match-contains', item=x)
        ev.eq(r.if_match.contains_weak(x), True, 'if-match-contains-weak',
              item=x)
        ev.eq(r.if_match.is_weak(x), x in weak, 'if-match-is-weak', item=x)
    ev.eq(r.if_match.as_set(), set(strong), 'if-match-again')
    if bad:
        ev.ok(r.if_none_match.star_tag, 'if-none-match-star')
        ev.eq(r.if_unmodified_since, None, 'if-unmodified-since-garbage')
        ev.eq((r.if_range.date, r.if_range.etag), (rfc.naive(t), None),
              'if-range-date')
    else:
        ev.eq(r.if_none_match.as_set(True), set(strong + weak),
              'if-none-match')
        ev.eq(r.if_unmodified_since, rfc.naive(u), 'if-unmodified-since')
        ev.eq((r.if_range.date, r.if_range.etag), (None, other[1]),
              'if-range-etag')
    ev.eq(r.if_modified_since, rfc.naive(t), 'if-modified-since')
    empty = Request(gen.environ())
    ev.ok(not empty.if_match and not empty.if_none_match, 'absent-etags')
    ev.eq((empty.if_modified_since, empty.if_unmodified_since), (None, None),
          'absent-dates')
    ev.hit('request-parsed')
    ev.key(text, t, u, bad)
    ev.case()


def history(src, ev):
    """A caching client always ends up with the current representation."""
    from verktyg.responses import Response
    mode = src.choice(('etag', 'weak', 'date', 'both', 'auto'))
    now = rfc.random_instant(src) % 4000000000
    state = {'data': b'v0', 'lm': now, 'n': 0}
    copies = {}         # etag -> (body, last modified text)
    current = None      # what the client shows
    last = None
    log = []
    ev.note(mode=mode, log=log)

    def app(env, start_response):
        r = Response(state['data'] if src.bool() else
                     iter([state['data'][:1], state['data'][1:]]),
                     mimetype='text/plain')
        if mode in ('date', 'both'):
            r.last_modified = rfc.naive(state['lm'])
        if mode == 'auto':
            r.add_etag()
        elif mode != 'date':
            r.set_etag('tag %d' % state['n'], weak=mode == 'weak')
        return r.make_conditional(env)(env, start_response)

    for _ in range(src.few(3, 12, 60)):
        if src.bool():
            if src.draw(4) == 3 and mode != 'both' and mode != 'date' \
                    and state['n']:
                state['n'] -= 1         # an older version comes back
            else:
                state['n'] += 1
            state['data'] = b'v%d' % state['n']
            state['lm'] += src.choice((1, 1, 60, 86400))
            log.append('change')
        headers = []
        tags = list(copies)
        if tags:
            if src.bool():
                tags = tags[-1:]
            headers.append(('If-None-Match', ', '.join(tags)))
        if last is not None and (mode == 'date' or src.bool()):
            headers.append(('If-Modified-Since', last[1]))
            if mode in ('etag', 'weak', 'auto'):
                headers.pop()
        res = serve(app, gen.environ(headers=headers), ev)
        log.append((headers, res.code))
        e, lm = res.one('ETag'), res.one('Last-Modified')
        if res.code == 200:
            ev.hit('refreshed')
            current = res.body
            if e is not None:
                copies[e] = current
            if lm is not None:
                last = (current, lm)
        else:
            ev.eq(res.code, 304, 'history-status')
            ev.hit('revalidated')
            if e is not None:
                ev.ok(e in copies, 'unknown-tag-confirmed', etag=e)
                current = copies[e]
            else:
                ev.ok(last is not None, 'nothing-to-confirm')
                current = last[0]
        ev.eq(current, state['data'], 'stale-copy')
        if not headers:
            ev.eq(res.code, 200, 'unconditional-304')
    ev.hit('history')
    ev.key(mode, log)
    ev.case()


SCENARIOS = [
    Scenario('sent', sent, 5000),
    Scenario('others', others, 300),
    Scenario('function', function, 2500),
    Scenario('response-etags', response_etags, 1000),
    Scenario('parsed', parsed, 1000),
    Scenario('history', history, 500),
]
DIRECTED = []
