"""Immutable structures never change and copies keep their value."""
import copy
import pickle

from vf.engine import Scenario
from vf import gen

RULE = ('one immutable object x one mutator (or copy mechanism); distinct = '
        '(class, content, mutator, arguments)')
ASSUMPTIONS = ['re-running a constructor on an existing object and setting '
               'private attributes are not mutators']
REQUIRED = {'attempt': 20000, 'operator': 5000, 'any-method': 5000,
            'hash-equal': 1000, 'copied': 3000, 'pickled': 1000,
            'request-attribute': 500, 'alias-checked': 500}

KEYS = ('a', 'b', 'c', 'k1', u'\xe4', '', 'Key')


def key(src):
    return src.choice(KEYS) if src.bool(3, 4) else gen.text(src)


def val(src):
    k = src.draw(6)
    if k < 3:
        return str(src.int(0, 3))
    if k == 3:
        return src.int(-2, 5)
    if k == 4:
        return src.choice((None, '', (), ('x', 1), 1.5, b'x'))
    return gen.text(src)


def pairs(src):
    return src.list(lambda: (key(src), val(src)), 4, 30)


class Kind(object):
    """How to make, look at and attack one class."""

    def __init__(self, name, make, look, eq=True, hashable=True, base=None,
                 copies=True):
        self.name = name
        self.make = make          # content -> object
        self.look = look          # object -> comparable state
        self.eq = eq
        self.hashable = hashable
        self.base = base
        self.copies = copies


def multi(d):
    return sorted(((repr(k), [repr(x) for x in v]) for k, v in d.lists()))


def kinds():
    from verktyg import datastructures as D
    from verktyg.http import Authorization, RequestCacheControl
    from verktyg.wsgi import EnvironHeaders

    def env(ps):
        e = gen.environ('/')
        for i, (k, v) in enumerate(ps):
            e['HTTP_X_%d' % (i % 5)] = gen.as_wsgi(str(v))
        return EnvironHeaders(e)

    def combined(ps):
        n = len(ps) // 2
        return D.CombinedMultiDict([D.ImmutableMultiDict(ps[:n]),
                                    D.ImmutableMultiDict(ps[n:])])
    return [
        Kind('ImmutableList', lambda ps: D.ImmutableList([v for _, v in ps]),
             lambda o: [repr(x) for x in o], base=list),
        Kind('ImmutableDict', lambda ps: D.ImmutableDict(ps),
             lambda o: sorted((repr(k), repr(v)) for k, v in o.items()),
             base=dict),
        Kind('ImmutableTypeConversionDict',
             lambda ps: D.ImmutableTypeConversionDict(ps),
             lambda o: sorted((repr(k), repr(v)) for k, v in o.items()),
             base=D.TypeConversionDict),
        Kind('ImmutableMultiDict', lambda ps: D.ImmutableMultiDict(ps),
             multi, base=D.MultiDict),
        Kind('ImmutableOrderedMultiDict',
             lambda ps: D.ImmutableOrderedMultiDict(ps),
             lambda o: [(repr(k), repr(v)) for k, v in o.items(multi=True)],
             base=D.OrderedMultiDict),
        Kind('CombinedMultiDict', combined, multi, eq=False, hashable=False),
        Kind('Authorization', lambda ps: Authorization('basic', dict(ps)),
             lambda o: (o.type, sorted((repr(k), repr(v))
                                       for k, v in o.items()))),
        Kind('RequestCacheControl', lambda ps: RequestCacheControl(dict(ps)),
             lambda o: sorted((repr(k), repr(v)) for k, v in o.items())),
        Kind('EnvironHeaders', env, lambda o: sorted(list(o)), eq=False,
             hashable=False, copies=False),
    ]


LIST_MUTATORS = ('append', 'clear', 'extend', 'insert', 'pop', 'remove',
                 'reverse', 'sort')
DICT_MUTATORS = ('clear', 'pop', 'popitem', 'setdefault', 'update')
MULTI_MUTATORS = DICT_MUTATORS + ('add', 'setlist', 'poplist', 'popitemlist',
                                  'setlistdefault')
HEADER_MUTATORS = ('add', 'add_header', 'clear', 'extend', 'pop', 'popitem',
                   'remove', 'set', 'setdefault')


def arguments(name, k, v, ps):
    return {
        'append': [(v,)], 'clear': [()], 'extend': [([v],), ([(k, v)],)],
        'insert': [(0, v)], 'pop': [(), (0,), (k,), (k, v)],
        'remove': [(v,), (k,)], 'reverse': [()], 'sort': [()],
        'popitem': [()], 'setdefault': [(k, v), (k,)],
        'update': [(dict(ps[:2]),), (ps[:2],), ((),)],
        'add': [(k, v)], 'setlist': [(k, [v])], 'poplist': [(k,)],
        'popitemlist': [()], 'setlistdefault': [(k, [v]), (k,)],
        'add_header': [(k, v)], 'set': [(k, v)],
    }[name]


def operators(o, k, v, ps):
    """(name, function) of the operators that change a mutable object."""
    def setitem():
        o[k] = v

    def delitem():
        del o[k]

    def setindex():
        o[0] = v

    def delindex():
        del o[0]

    def setslice():
        o[0:1] = [v]

    def delslice():
        del o[:]

    def iadd():
        x = o
        x += [v]

    def imul():
        x = o
        x *= 2

    def ior():
        x = o
        x |= {k: v}

    def ior_empty():
        x = o
        x |= {}

    def iadd_empty():
        x = o
        x += []

    def imul_one():
        x = o
        x *= 1
    if isinstance(o, list):
        return [('setitem', setindex), ('delitem', delindex),
                ('setslice', setslice), ('delslice', delslice),
                ('iadd', iadd), ('imul', imul), ('iadd', iadd_empty),
                ('imul', imul_one)]
    if isinstance(o, dict):
        return [('setitem', setitem), ('delitem', delitem), ('ior', ior),
                ('ior', ior_empty)]
    return [('setitem', setitem), ('delitem', delitem)]


def snapshot(kind, o):
    h = None
    if kind.hashable:
        try:
            h = hash(o)
        except TypeError:
            pass
    return kind.look(o), len(o), h


def attack(src, ev):
    kind = src.choice(kinds())
    ps = pairs(src)
    o = kind.make(ps)
    before = snapshot(kind, o)
    k = src.choice(ps)[0] if ps and src.bool() else key(src)
    v = val(src)
    if kind.name == 'EnvironHeaders' and src.bool():
        k = 'X-0'
    if isinstance(o, list):
        names = LIST_MUTATORS
        k = src.int(0, len(ps))
    elif kind.name == 'EnvironHeaders':
        names = HEADER_MUTATORS
    elif hasattr(o, 'setlist'):
        names = MULTI_MUTATORS
    else:
        names = DICT_MUTATORS
    ev.note(kind=kind.name, content=ps, key=k, value=v)
    for name in names:
        for args in arguments(name, k, v, ps):
            ev.raises(TypeError, lambda: getattr(o, name)(*args),
                      'mutator-accepted', method=name, args=args)
            ev.hit('attempt')
            ev.eq(snapshot(kind, o), before, 'changed', method=name,
                  args=args)
    for name, fn in operators(o, k, v, ps):
        ev.raises(TypeError, fn, 'operator-accepted', operator=name)
        ev.hit('operator')
        ev.eq(snapshot(kind, o), before, 'changed', operator=name)
    # whatever else the class offers
    for name in dir(type(o)):
        if name.startswith('_') or name == 'fromkeys':
            continue
        f = getattr(o, name)
        if not callable(f):
            continue
        for args in ((), (k,), (k, v), (v,), ([v],), (k, [v])):
            try:
                r = f(*args)
                # what reading returns may be changed freely
                if r is not o and isinstance(r, list):
                    r.append('later')
                    ev.hit('alias-checked')
                elif r is not o and isinstance(r, dict):
                    for x in list(r.values())[:3]:
                        if isinstance(x, list):
                            x.append('later')
                    try:
                        r['later'] = 'later'
                    except TypeError:
                        pass
                elif r is not o and hasattr(r, '__next__') or \
                        type(r).__name__.startswith('dict_'):
                    for x in list(r):
                        if isinstance(x, list):
                            x.append('later')
                        elif isinstance(x, tuple) and len(x) == 2 and \
                                isinstance(x[1], list):
                            x[1].append('later')
                    ev.hit('alias-checked')
            except Exception:
                pass
            ev.hit('any-method')
            ev.eq(snapshot(kind, o), before, 'changed', method=name,
                  args=args)
    ev.key('attack', kind.name, ps, k, v)


def hashes(src, ev):
    """Equal objects of one class have equal hashes and can be used as
    keys."""
    kind = src.choice([k for k in kinds() if k.eq and k.hashable])
    ps = pairs(src)
    qs = list(ps)
    how = src.draw(4)
    if how == 1:
        qs = src.shuffle(ps)
    elif how == 2 and qs:
        qs[src.draw(len(qs))] = (key(src), val(src))
    elif how == 3:
        qs = qs + [(key(src), val(src))]
    a, b = kind.make(ps), kind.make(qs)
    ev.note(kind=kind.name, a=a, b=b)
    if src.bool():
        hash(a)
    want = kind.look(a) == kind.look(b)
    if want:
        ev.ok(a == b and b == a and not a != b, 'same-content-not-equal')
        ev.eq(hash(a), hash(b), 'equal-but-different-hash')
        ev.ok({a: 1}.get(b) == 1 and b in {a}, 'not-found-as-key')
        ev.hit('hash-equal')
        ev.eq(hash(a), hash(a), 'hash-changes')
        c = pickle.loads(pickle.dumps(a))
        ev.eq(hash(c), hash(a), 'equal-but-different-hash')
    elif a == b:
        # 1 == 1.0 == True
        ev.eq(hash(a), hash(b), 'equal-but-different-hash')
    ev.key('hash', kind.name, ps, qs)


def copies(src, ev):
    """copy, deepcopy and pickle of the immutable classes."""
    from verktyg import datastructures as D
    kind = src.choice([k for k in kinds() if k.copies])
    ps = pairs(src)
    deep = src.bool(1, 4)
    if deep:
        ps = ps + [('deep', ['x'])]
    o = kind.make(ps)
    ev.note(kind=kind.name, content=ps)
    state = kind.look(o)
    if not deep and kind.hashable:
        hash(o)
    for how in ('copy.copy', 'deepcopy', 'pickle'):
        if how == 'copy.copy':
            c = copy.copy(o)
        elif how == 'deepcopy':
            c = copy.deepcopy(o)
        else:
            c = pickle.loads(pickle.dumps(o, src.int(2, 5)))
            ev.hit('pickled')
        ev.ok(type(c) is type(o), 'copy-class', how=how, observed=type(c))
        ev.eq(kind.look(c), state, 'copy-content', how=how)
        ev.eq(len(c), len(o), 'copy-length', how=how)
        if kind.eq:
            ev.ok(c == o, 'copy-not-equal', how=how)
            if not deep and kind.hashable:
                ev.eq(hash(c), hash(o), 'copy-hash', how=how)
        ev.hit('copied')
        if deep and how != 'copy.copy':
            if isinstance(c, list):
                c[-1].append('later')
            else:
                c['deep'].append('later')
            ev.eq(kind.look(o), state, 'copy-shares-values', how=how)
        # a copy of an immutable object is immutable
        if isinstance(c, dict):
            ev.raises(TypeError, lambda: c.update({'a': 1}),
                      'mutator-accepted', how=how)
            ev.raises(TypeError, lambda: c.__setitem__('a', 1),
                      'mutator-accepted', how=how)
        else:
            ev.raises(TypeError, lambda: c.append(1), 'mutator-accepted',
                      how=how)
    # the copy method gives a mutable one with the same content
    if kind.base is not None:
        c = o.copy()
        ev.ok(isinstance(c, kind.base) and type(c) is kind.base,
              'mutable-copy-class', observed=type(c))
        if kind.base is list:
            ev.eq(list(c), list(o), 'mutable-copy-content')
            c.append('later')
        else:
            ev.eq(kind.look(c), state, 'mutable-copy-content')
            c['later'] = 'later'
            if hasattr(c, 'add') and ps:
                c.add(ps[0][0], 'later')
        ev.eq(kind.look(o), state, 'mutable-copy-shares-state')
        ev.hit('copied')
    if kind.base not in (None, list) and kind.name != 'CombinedMultiDict':
        fv = src.choice(('v', None, ['x', 'y'], ('x',), 0))
        c = type(o).fromkeys(['a', 'b'], fv)
        ev.ok(type(c) is type(o), 'fromkeys-class')
        ev.eq(dict(c.items()), {'a': fv, 'b': fv}, 'fromkeys-content',
              value=fv)
    ev.key('copies', kind.name, ps)


def mutable_copies(src, ev):
    """Copies of the mutable header structures."""
    from verktyg import http
    what = src.draw(7)
    ev.note(what=what)
    if what == 0:
        ps = [(gen.token(src), gen.value(src)) for _ in range(src.size(5))]
        o = http.Headers(ps)
        for how, c in (('copy', o.copy()), ('copy.copy', copy.copy(o)),
                       ('deepcopy', copy.deepcopy(o)),
                       ('pickle', pickle.loads(pickle.dumps(o))),
                       ('constructor', http.Headers(o)),
                       ('slice', o[:])):
            ev.ok(type(c) is http.Headers, 'copy-class', how=how)
            ev.eq(list(c), ps, 'copy-content', how=how)
            ev.ok(c == o and not (c != o), 'copy-not-equal', how=how)
            c.add('Later', '1')
            ev.eq(list(o), ps, 'copy-shares-state', how=how)
            ev.hit('copied')
        ev.key('headers', ps)
        return
    if what == 1:
        items = []
        for _ in range(src.size(5)):
            x = gen.token(src)
            if x.lower() not in [y.lower() for y in items]:
                items.append(x)
        o = http.HeaderSet(items)

        def look(x):
            return list(x), len(x), x.to_header(), sorted(x.as_set())

        def change(x):
            x.add('later-item')
    elif what == 2:
        o = http.ETags([gen.token(src) for _ in range(src.size(3))],
                       [gen.token(src) for _ in range(src.size(3))],
                       src.bool(1, 4))

        def look(x):
            return (sorted(x.as_set()), sorted(x.as_set(True)), x.star_tag)
        change = None
    elif what == 3:
        o = http.Range('bytes', [(src.int(0, 5), src.int(6, 9))])

        def look(x):
            return x.units, x.ranges, x.to_header()

        def change(x):
            x.ranges.append((10, 11))
    elif what == 4:
        o = http.ContentRange('bytes', 0, src.int(1, 9), 20)

        def look(x):
            return x.units, x.start, x.stop, x.length, x.to_header()

        def change(x):
            x.set(0, 1, 2)
    elif what == 5:
        import datetime
        o = http.IfRange(gen.token(src)) if src.bool() else \
            http.IfRange(date=datetime.datetime(2000, 1, src.int(1, 28)))

        def look(x):
            return x.etag, x.date, x.to_header()
        change = None
    else:
        o = http.parse_authorization_header(
            'Digest username="u", realm="r", nonce="n", uri="/", '
            'response="x", opaque="%s"' % gen.token(src))

        def look(x):
            return x.type, dict(x)
        change = None
    state = look(o)
    ev.note(state=state)
    for how, c in (('copy.copy', copy.copy(o)),
                   ('deepcopy', copy.deepcopy(o)),
                   ('pickle', pickle.loads(pickle.dumps(o)))):
        ev.ok(type(c) is type(o), 'copy-class', how=how)
        ev.eq(look(c), state, 'copy-content', how=how)
        ev.hit('copied')
        if how == 'pickle':
            ev.hit('pickled')
        if change is not None and how != 'copy.copy':
            change(c)
            ev.eq(look(o), state, 'copy-shares-state', how=how)
    ev.key('mutable', what, state)


def requests(src, ev):
    """What a request exposes can not be changed by one reader."""
    from verktyg.requests import Request
    q = '&'.join('%s=%s' % (src.choice('abc'), src.int(0, 9))
                 for _ in range(src.size(5)))
    env = gen.environ('/', query=q, headers=[
        ('Cookie', 'a=1; b=2'), ('X-Forwarded-For', '1.2.3.4, 5.6.7.8'),
        ('Cache-Control', 'max-age=%d, no-cache' % src.int(0, 9)),
        ('Authorization', 'Basic YTpi'), ('If-None-Match', '"x", W/"y"'),
        ('Range', 'bytes=0-5'), ('X-0', 'v')])
    r = Request(env)
    ev.note(query=q)
    for name in ('args', 'cookies', 'access_route', 'cache_control',
                 'authorization', 'headers'):
        o = getattr(r, name)
        state = list(o.items(multi=True)) if name == 'args' else \
            list(o.items()) if hasattr(o, 'items') else list(o)
        ev.hit('request-attribute')
        ms = LIST_MUTATORS if isinstance(o, list) else \
            HEADER_MUTATORS if name == 'headers' else \
            MULTI_MUTATORS if name == 'args' else DICT_MUTATORS
        for m in ms:
            for args in arguments(m, 0 if isinstance(o, list) else 'a', 'v',
                                  [('a', '1')]):
                ev.raises(TypeError, lambda: getattr(o, m)(*args),
                          'mutator-accepted', attribute=name, method=m,
                          args=args)
                ev.hit('attempt')
        for m, fn in operators(o, 'a', 'v', []):
            ev.raises(TypeError, fn, 'operator-accepted', attribute=name,
                      operator=m)
            ev.hit('operator')
        again = getattr(Request(dict(env)), name)
        for x in (o, getattr(r, name), again):
            ev.eq(list(x.items(multi=True)) if name == 'args' else
                  list(x.items()) if hasattr(x, 'items') else list(x),
                  state, 'changed', attribute=name)
    ev.key('request', q)


SCENARIOS = [
    Scenario('attack', attack, 900, 15000),
    Scenario('hashes', hashes, 3000, 40000),
    Scenario('copies', copies, 2000, 30000),
    Scenario('mutable-copies', mutable_copies, 1500, 20000),
    Scenario('requests', requests, 200, 3000),
]
