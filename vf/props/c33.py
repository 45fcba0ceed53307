"""Lazy and header backed attributes belong to one object."""
from vf.engine import Scenario
from vf import gen

RULE = ('classes with generated sets of lazy and header backed attributes; '
        'objects of several classes are read, assigned and changed in turn '
        'and every answer and every call of the computing functions is '
        'compared with a model; distinct = hash of the history')
ASSUMPTIONS = ['objects have a __dict__', 'one thread at a time',
               'lazy attributes are not deleted']
REQUIRED = {'shallow': 100, 'second-request': 300, 'read': 8000, 'computed': 3000, 'cached': 3000, 'falsy': 800,
            'assigned': 800, 'failed': 200, 'header-read': 5000,
            'header-written': 1500, 'header-deleted': 500,
            'header-unreadable': 300, 'header-refused': 200,
            'request-attribute': 3000}


class Failure(Exception):
    pass


def make_value(src):
    return src.choice((None, False, 0, '', (), 1, 'x', 2.5)) if src.bool() \
        else [src.int(0, 9)]


def lazy(src, ev):
    from verktyg.utils import cached_property
    calls = []
    plans = {}

    def attribute(name, tag):
        def compute(self):
            calls.append((tag, id(self)))
            v = plans.pop((tag, id(self)), None)
            if v == 'fail':
                raise Failure()
            if v is None:
                return None
            return v[0]
        compute.__name__ = name
        compute.__doc__ = 'doc of ' + name
        if src.bool(1, 4):
            compute.__name__ = 'other'
            return cached_property(compute, name=name, doc='doc of ' + name)
        return cached_property(compute)
    names = ['a', 'b', 'c'][:src.int(1, 3)]
    base = type('Base', (object,), {n: attribute(n, 'base ' + n)
                                    for n in names})
    over = src.sublist(names, 0, len(names)) if src.bool() else []
    sub = type('Sub', (base,), {n: attribute(n, 'sub ' + n) for n in over})
    other = type('Other', (object,), {n: attribute(n, 'other ' + n)
                                      for n in names})
    for n in names:
        for cls in (base, sub, other):
            ev.ok(isinstance(getattr(cls, n), property),
                  'class-access', attribute=n)
            ev.eq(getattr(cls, n).__doc__, 'doc of ' + n, 'documentation')
    ev.eq(calls, [], 'computed-without-object')
    objs = [src.choice((base, sub, other))() for _ in range(src.few(1, 4, 12))]
    if src.bool():
        # objects that are all equal to each other
        for cls in (base, other):
            cls.__eq__ = lambda self, o: True
            cls.__hash__ = lambda self: 1
    known = {}
    log = []
    for _ in range(src.few(2, 14, 60)):
        i, n = src.draw(len(objs)), src.choice(names)
        o = objs[i]
        tag = '%s %s' % ('other' if type(o) is other else 'sub'
                         if type(o) is sub and n in over else 'base', n)
        op = src.draw(5)
        log.append((i, n, op))
        ev.note(classes=[type(x).__name__ for x in objs], overridden=over,
                log=log)
        del calls[:]
        if op == 4:
            v = make_value(src)
            setattr(o, n, v)
            known[i, n] = v
            ev.eq(calls, [], 'computed-on-assignment')
            ev.hit('assigned')
            continue
        if (i, n) in known:
            got = getattr(o, n)
            ev.ok(got is known[i, n], 'value-changed', got=got,
                  want=known[i, n])
            ev.eq(calls, [], 'computed-again', value=got)
            ev.hit('cached')
            if not got:
                ev.hit('falsy')
        elif op == 3:
            plans[tag, id(o)] = 'fail'
            ev.raises(Failure, lambda: getattr(o, n), 'failure-swallowed')
            ev.eq(calls, [(tag, id(o))], 'computed-how-often')
            ev.hit('failed')
        else:
            v = make_value(src)
            plans[tag, id(o)] = [v]
            got = getattr(o, n)
            ev.ok(got is v, 'value', got=got, want=v)
            ev.eq(calls, [(tag, id(o))], 'computed-how-often')
            known[i, n] = v
            ev.hit('computed')
        ev.hit('read')
    ev.key('lazy', log, over)
    ev.case()


def headers(src, ev):
    from verktyg.utils import header_property
    from verktyg.http import Headers
    from verktyg.responses import Response

    def even(s):
        if len(s) % 2:
            raise src.choice((ValueError, TypeError))('odd')
        return ('even', s)
    spec = {}
    ns = {}
    for i in range(src.few(1, 4, 10)):
        name = 'X-H%d' % i
        kind = src.choice(('text', 'int', 'even'))
        default = src.choice((None, 'dflt', 0, ('d',)))
        ro = src.bool(1, 5)
        kw = {'text': {}, 'int': dict(load_func=int, dump_func=str),
              'even': dict(load_func=even)}[kind]
        # in the class under another spelling than the header is stored
        ns['h%d' % i] = header_property(
            src.choice((name, name.lower())), default, read_only=ro,
            doc='d%d' % i, **kw)
        spec['h%d' % i] = (name, kind, default, ro)
    own = src.bool()

    def init(self):
        self.headers = Headers()
    cls = type('Mine', (object,) if own else (Response,),
               dict(ns, __init__=init) if own else ns)
    objs = [cls() for _ in range(src.few(1, 3, 10))]
    model = [{} for _ in objs]
    log = []
    for a in spec:
        ev.ok(getattr(cls, a) is ns[a], 'class-access', attribute=a)
    for _ in range(src.few(2, 14, 60)):
        i, a = src.draw(len(objs)), src.choice(sorted(spec))
        o, (name, kind, default, ro) = objs[i], spec[a]
        op = src.draw(6)
        text = src.choice(('', '7', '12', 'abc', 'abcd', '-1', 'x y'))
        log.append((i, a, op, text))
        ev.note(spec=spec, log=log)
        if op == 0:
            o.headers[name] = text
            model[i][a] = text
        elif op == 1:
            o.headers.pop(name, None)
            model[i].pop(a, None)
        elif op in (2, 3):
            v = int(text) if kind == 'int' and text.lstrip('-').isdigit() \
                else text
            if ro:
                ev.raises(AttributeError, lambda: setattr(o, a, v),
                          'read-only-set')
                ev.hit('header-refused')
            else:
                setattr(o, a, v)
                model[i][a] = str(v)
                ev.hit('header-written')
        elif op == 4:
            if ro:
                ev.raises(AttributeError, lambda: delattr(o, a),
                          'read-only-deleted')
                ev.hit('header-refused')
            else:
                delattr(o, a)
                model[i].pop(a, None)
                ev.hit('header-deleted')
        for j, x in enumerate(objs):
            for b, (name, kind, default, ro) in spec.items():
                raw = model[j].get(b)
                ev.eq(x.headers.get(name), raw, 'header-text', attribute=b)
                want = raw
                if raw is None:
                    want = default
                elif kind == 'int':
                    try:
                        want = int(raw)
                    except ValueError:
                        want = default
                        ev.hit('header-unreadable')
                elif kind == 'even':
                    want = default if len(raw) % 2 else ('even', raw)
                    if len(raw) % 2:
                        ev.hit('header-unreadable')
                got = getattr(x, b)
                ev.eq(got, want, 'header-attribute', attribute=b, raw=raw)
                ev.eq(type(got), type(want), 'header-attribute-type')
                ev.hit('header-read')
        extra = {k.lower() for o in objs for k, _ in o.headers} - {
            s[0].lower() for s in spec.values()}
        ev.ok(extra <= {'content-type', 'content-length'}, 'other-headers',
              extra=extra)
    ev.key('headers', spec, log)
    ev.case()


ATTRIBUTES = ['args', 'cookies', 'headers', 'path', 'full_path',
              'script_root', 'url', 'base_url', 'url_root', 'host_url',
              'host', 'query_string', 'method', 'access_route',
              'remote_user', 'scheme', 'cache_control', 'if_match',
              'if_none_match', 'if_modified_since', 'if_unmodified_since',
              'if_range', 'range', 'authorization', 'content_length',
              'pragma', 'stream', 'input_stream']


def look(v):
    if hasattr(v, 'read'):
        return 'stream'
    if v is None or isinstance(v, (str, bytes, int)):
        return v
    return repr(v)


def requests(src, ev):
    """Attributes of requests, read in every order."""
    from verktyg.requests import Request
    envs = []
    for i in range(src.int(2, 3)):
        h = [('Cookie', 'a=%d; b=2' % i), ('If-Match', '"%d"' % i),
             ('If-None-Match', 'W/"%d"' % i), ('Range', 'bytes=%d-' % i),
             ('Cache-Control', 'max-age=%d' % i), ('Pragma', 'p%d' % i),
             ('If-Modified-Since', 'Sun, 06 Nov 1994 08:49:3%d GMT' % i),
             ('If-Unmodified-Since', 'Sun, 06 Nov 1994 08:49:4%d GMT' % i),
             ('If-Range', '"r%d"' % i), ('X-Forwarded-For', '1.1.1.%d' % i),
             ('Authorization', 'Basic ' + ('YTo%s' % 'xyz'[i]) + 'eA==')]
        h = src.sublist(h, 0, len(h)) if src.bool() else h
        envs.append(gen.environ(
            '/p%d' % i, 'q=%d' % i, src.choice(('GET', 'POST')), h,
            body=b'b' * i, script=src.choice(('', '/s%d' % i)),
            host='h%d.example' % i))
    # what each of them says when nothing else was asked before
    alone = {}
    for i, e in enumerate(envs):
        for a in ATTRIBUTES:
            alone[i, a] = look(getattr(Request(dict(e)), a))
    shallow = [src.bool(1, 4) for _ in envs]
    quiet = [src.bool(1, 4) for _ in envs]
    mine = [dict(e) for e in envs]
    rs = [Request(e, populate_request=not q, shallow=s)
          for e, s, q in zip(mine, shallow, quiet)]
    for e, r, s, q in zip(mine, rs, shallow, quiet):
        # the environment names the request unless told otherwise
        ev.ok(e.get('verktyg.request') is (None if s or q else r),
              'named-in-environment', shallow=s, populate=not q)
    for e, r, s, q in zip(mine, rs, shallow, quiet):
        # and goes on naming it when others are made of it that are not to
        # be named
        named = e.get('verktyg.request')
        for again in (dict(populate_request=False), dict(shallow=True),
                      dict(populate_request=False, shallow=True)):
            if src.bool(1, 4):
                Request(e, **again)
                ev.ok(e.get('verktyg.request') is named,
                      'named-in-environment', **again)
                ev.hit('second-request')
    first = {}
    log = []
    for _ in range(src.int(10, 60)):
        i, a = src.draw(len(rs)), src.choice(ATTRIBUTES)
        log.append((i, a))
        ev.note(log=log[-20:], shallow=shallow, quiet=quiet)
        if shallow[i] and a == 'stream':
            ev.raises(RuntimeError, lambda: rs[i].stream,
                      'shallow-request-consumed')
            ev.raises(RuntimeError, lambda: rs[i].get_data(),
                      'shallow-request-consumed')
            ev.hit('shallow')
            continue
        v = getattr(rs[i], a)
        ev.eq(look(v), alone[i, a], 'depends-on-other-reads', attribute=a)
        if (i, a) in first:
            if a in ('args', 'cookies', 'headers', 'stream'):
                ev.ok(v is first[i, a], 'computed-again', attribute=a)
        first[i, a] = v
        ev.hit('request-attribute')
        ev.ok({k: x for k, x in mine[i].items() if k != 'verktyg.request'} ==
              envs[i], 'environment-changed', attribute=a)
    ev.key('requests', log[:10], [sorted(
        (k, v) for k, v in e.items() if isinstance(v, str)) for e in envs])
    ev.case()


SCENARIOS = [
    Scenario('lazy', lazy, 2000, 40000),
    Scenario('headers', headers, 1500, 30000),
    Scenario('requests', requests, 400, 8000),
]
