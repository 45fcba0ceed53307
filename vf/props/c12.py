"""Multi-value dictionaries agree with their models."""
import copy
import pickle

from vf.engine import Scenario
from vf import gen

RULE = ('histories of operations on a small pool of dictionaries (originals '
        'and copies), every object compared with its list-of-pairs model '
        'after every operation; distinct = hash of the history')
ASSUMPTIONS = ['lists of values are never empty',
               'conversion functions signal failure with ValueError']
REQUIRED = {'op': 20000, 'view-agreement': 20000, 'multi-valued': 3000,
            'copied': 1000, 'combined': 500, 'missing-key': 2000,
            'converted': 2000, 'alias-checked': 500, 'ordered': 2000,
            'large': 20, 'compared': 3000, 'file-added': 100}

KEYS = ('a', 'b', 'c', 'd', '', 'Key', 'key', u'\xe4', 1, None, ('t', 1),
        'foo[]')


def key(src):
    k = src.draw(10)
    if k < 7:
        return KEYS[src.draw(4)]
    if k < 9:
        return src.choice(KEYS)
    return gen.text(src, gen.PRINTABLE + gen.UNI)


def val(src):
    k = src.draw(8)
    if k < 4:
        return str(src.int(0, 3))
    if k == 4:
        return src.int(-3, 300)
    if k == 5:
        return src.choice((None, '', 'x', 1.5, True, (), ('q',), 'nope',
                           '42', ' 7 ', '1_0', frozenset((1, 2)), {5},
                           {'x': 1}, b'q', 0, False))
    if k == 6:
        return [src.int(0, 3)]
    return gen.text(src)


class Model(object):
    """Pairs in order of insertion."""

    def __init__(self, pairs=()):
        self.p = list(pairs)

    def copy(self):
        return Model(self.p)

    def keys(self):
        out = []
        for k, _ in self.p:
            if k not in out:
                out.append(k)
        return out

    def all(self, k):
        return [v for q, v in self.p if q == k and type(q) is type(k)]

    def remove(self, k):
        got = self.all(k)
        self.p = [(q, v) for q, v in self.p
                  if not (q == k and type(q) is type(k))]
        return got


def same_pairs(a, b):
    """Same multiset of keys with the same list each."""
    return grouped(a) == grouped(b)


def grouped(pairs):
    d = {}
    for k, v in pairs:
        d.setdefault(k, []).append(v)
    return d


def conv(f, v):
    try:
        return True, f(v)
    except ValueError:
        return False, None


def to_int(v):
    if isinstance(v, (list, tuple, set, frozenset, dict)) or v is None:
        raise ValueError('no number')
    return int(v)


def read(ev, d, m, ordered, probes, combined=False):
    """All read operations against the model."""
    pairs = list(d.items(multi=True))
    if ordered:
        ev.eq(pairs, m.p, 'pairs-differ')
        ev.hit('ordered')
    else:
        ev.eq(grouped(pairs), grouped(m.p), 'pairs-differ')
    g = grouped(m.p)
    ks = list(d.keys())
    ev.eq(len(ks), len(set(ks)), 'key-listed-twice', keys=ks)
    ev.eq(set(ks), set(g), 'keys-differ')
    if ordered:
        ev.eq(ks, m.keys(), 'key-order-differs')
    ev.eq(list(d), ks, 'iteration-differs')
    ev.eq(len(d), len(g), 'len-differs')
    ev.eq(bool(len(d)), bool(g), 'truth-differs')
    firsts = list(d.items())
    ev.eq(dict(firsts), {k: v[0] for k, v in g.items()}, 'items-differ')
    ev.eq(len(firsts), len(g), 'items-count-differs')
    lists = [(k, list(v)) for k, v in d.lists()]
    ev.eq(dict(lists), g, 'lists-differ')
    ev.eq(len(lists), len(g), 'lists-count-differs')
    values = list(d.values())
    lv = [list(x) for x in d.listvalues()]
    # the views agree in order with each other
    ev.eq([v for _, v in firsts], values, 'values-order-differs')
    ev.eq([v for _, v in lists], lv, 'listvalues-order-differs')
    if not combined:
        ev.eq([k for k, _ in firsts], ks, 'items-order-differs')
        ev.eq([k for k, _ in lists], ks, 'lists-order-differs')
    ev.eq(d.to_dict(), {k: v[0] for k, v in g.items()}, 'to-dict-differs')
    ev.eq(d.to_dict(flat=False), g, 'to-dict-lists-differ')
    ev.hit('view-agreement')
    if any(len(v) > 1 for v in g.values()):
        ev.hit('multi-valued')
    for k in probes:
        want = g.get(k, [])
        ev.eq(d.getlist(k), want, 'getlist-differs', key=k)
        ev.eq(k in d, bool(want), 'contains-differs', key=k)
        if want:
            ev.eq(d[k], want[0], 'getitem-differs', key=k)
            ev.eq(d.get(k), want[0], 'get-differs', key=k)
            ev.eq(d.get(k, 'DEF'), want[0], 'get-differs', key=k)
        else:
            ev.hit('missing-key')
            e = ev.raises(KeyError, lambda: d[k], 'missing-key-found', key=k)
            ev.eq(getattr(e, 'code', None), 400,
                  'missing-key-is-no-bad-request', key=k)
            ev.ok(d.get(k) is None, 'get-default', key=k)
            ev.eq(d.get(k, 'DEF'), 'DEF', 'get-default', key=k)
        conv_list = [r for ok, r in (conv(to_int, v) for v in want) if ok]
        ev.eq(d.getlist(k, type=to_int), conv_list,
              'getlist-conversion-differs', key=k)
        if not combined:
            ok, r = conv(to_int, want[0]) if want else (False, None)
            ev.eq(d.get(k, 'DEF', type=to_int), r if ok else 'DEF',
                  'get-conversion-differs', key=k)
        ev.hit('converted')


def build(src, cls, ev):
    pairs = src.list(lambda: (key(src), val(src)), 5, 60)
    if src.bool(1, 60):
        # very many values of one key, others between them
        k = key(src)
        pairs += [((k if i % 7 else 'z'), str(i))
                  for i in range(src.choice((65, 70, 129, 140, 260)))]
    if len(pairs) > 20:
        ev.hit('large')
    k = src.draw(5)
    if k == 0:
        return cls(list(pairs)), Model(pairs)
    if k == 1:
        return cls(iter(pairs)), Model(pairs)
    if k == 2:
        d = {}
        for a, b in pairs:
            d.setdefault(a, []).append(b)
        m = [(a, b) for a, bs in d.items() for b in bs]
        given = {}
        for a, bs in d.items():
            f = src.draw(3)
            if f == 0 and len(bs) == 1 and \
                    not isinstance(bs[0], (list, tuple)):
                given[a] = bs[0]
            elif f == 1:
                given[a] = tuple(bs)
            else:
                given[a] = list(bs)
        o = cls(given)
        # later changes of what was given do not reach the object
        for a in list(given):
            if isinstance(given[a], list):
                given[a].append('later')
                ev.hit('alias-checked')
        given['later'] = 1
        return o, Model(m)
    if k == 3:
        from verktyg.datastructures import MultiDict, OrderedMultiDict
        other = src.choice((MultiDict, OrderedMultiDict))(list(pairs))
        o = cls(other)
        m = Model(other.items(multi=True))
        if not same_pairs(m.p, pairs):
            ev.fail('construction-differs', observed=m.p, expected=pairs)
        other.add('later', 1)
        for a in list(other.keys())[:1]:
            other.add(a, 'later')
        return o, m
    return cls(), Model()


def history(src, ev):
    from verktyg.datastructures import MultiDict, OrderedMultiDict
    cls = src.choice((MultiDict, OrderedMultiDict))
    ordered = cls is OrderedMultiDict
    d, m = build(src, cls, ev)
    pool = [(d, m)]
    ops = [(cls.__name__, list(m.p))]
    probes = [key(src) for _ in range(2)] + ['a', 'missing']
    ev.note(ops=ops)
    read(ev, d, m, ordered, probes)
    for _ in range(src.size(8, 60)):
        i = src.draw(len(pool))
        d, m = pool[i]
        k, v = key(src), val(src)
        if m.p and src.bool():
            k = src.choice(m.p)[0]
        op = src.draw(19)
        ops.append((i, op, k, v))
        ev.note(ops=ops[-12:])
        ev.hit('op')
        has = bool(m.all(k))
        if op <= 1:
            d.add(k, v)
            m.p.append((k, v))
        elif op == 2:
            d[k] = v
            m.remove(k)
            m.p.append((k, v))
        elif op == 3:
            if has:
                del d[k]
                m.remove(k)
            else:
                ev.raises(KeyError, lambda: d.__delitem__(k), 'del-missing')
        elif op == 4:
            vs = src.list(lambda: val(src), 3, 30, lo=1)
            given = src.choice((list, tuple, iter))(vs)
            d.setlist(k, given)
            if isinstance(given, list):
                given.append('later')
                ev.hit('alias-checked')
                given = None
            if ordered and src.bool(1, 6):
                # no values: the key is gone
                d.setlist(k, [])
                ev.ok(k not in d, 'setlist-empty-kept', key=k)
                d.setlist(k, vs[:])
            m.remove(k)
            m.p += [(k, x) for x in vs[:]][:len(vs) - (
                1 if vs and vs[-1] == 'later' else 0)]
        elif op == 5:
            got = d.setdefault(k, v)
            if has:
                ev.eq(got, m.all(k)[0], 'setdefault-result')
            else:
                ev.ok(got is v or got == v, 'setdefault-result')
                m.p.append((k, v))
        elif op == 6:
            if ordered:
                ev.raises(TypeError, lambda: d.setlistdefault(k, [v]),
                          'setlistdefault-ordered')
            else:
                given = [v]
                got = d.setlistdefault(k, given)
                if not has:
                    m.p.append((k, v))
                ev.eq(got, m.all(k), 'setlistdefault-result')
                got.append('more')
                m.p.append((k, 'more'))
                given.append('later')
                ev.hit('alias-checked')
        elif op == 7:
            if has:
                ev.eq(d.pop(k), m.remove(k)[0], 'pop-result')
            elif src.bool():
                ev.eq(d.pop(k, 'DEF'), 'DEF', 'pop-default')
                ev.ok(d.pop(k, None) is None, 'pop-default')
            else:
                e = ev.raises(KeyError, lambda: d.pop(k), 'pop-missing')
                ev.eq(getattr(e, 'code', None), 400,
                      'missing-key-is-no-bad-request')
        elif op == 8:
            ev.eq(d.poplist(k), m.remove(k), 'poplist-result')
        elif op == 9:
            if m.p:
                a, b = d.popitem()
                ev.ok(m.all(a), 'popitem-key', key=a)
                ev.eq(b, m.remove(a)[0], 'popitem-value', key=a)
            else:
                ev.raises(KeyError, d.popitem, 'popitem-empty')
        elif op == 10:
            if m.p:
                a, b = d.popitemlist()
                ev.ok(m.all(a), 'popitemlist-key', key=a)
                ev.eq(b, m.remove(a), 'popitemlist-value', key=a)
            else:
                ev.raises(KeyError, d.popitemlist, 'popitemlist-empty')
        elif op <= 12:
            pairs = src.list(lambda: (key(src), val(src)), 4, 40)
            f = src.draw(6)
            if f == 0:
                d.update(pairs)
            elif f == 1:
                d.update(iter(pairs))
            elif f == 2:
                g = grouped(pairs)
                d.update({a: src.choice((list, tuple))(bs)
                          for a, bs in g.items()})
                pairs = [(a, b) for a, bs in g.items() for b in bs]
            elif f == 3:
                d.update(OrderedMultiDict(pairs))
            elif f == 4:
                o, om = pool[src.draw(len(pool))]
                pairs = list(o.items(multi=True))
                d.update(o)
                if o is d:
                    ev.hit('updated-from-itself')
            else:
                before = d
                d |= OrderedMultiDict(pairs)
                ev.ok(d is before, 'ior-is-another-object')
            m.p += pairs
        elif op == 13:
            if src.bool(1, 4):
                d.clear()
                m.p = []
        elif op == 14:
            # what was handed out is independent
            for a in (d.getlist(k), d.to_dict(flat=False).get(k),
                      dict(d.lists()).get(k)):
                if a:
                    a.append('later')
                    ev.hit('alias-checked')
            d.to_dict()['later'] = 1
        elif len(pool) < 4:
            f = src.draw(5)
            if f == 0:
                c = d.copy()
            elif f == 1:
                c = copy.copy(d)
            elif f == 2:
                c = cls(d)
            elif f == 3:
                c = copy.deepcopy(d)
                for a, b in c.items(multi=True):
                    if isinstance(b, list):
                        b.append('later')
                ev.eq([b for _, b in d.items(multi=True)].count(
                    ['later']), [b for _, b in m.p].count(['later']),
                    'deepcopy-shares-values')
                # references that were shared stay shared
                shared = [v]
                d.add(k, shared)
                m.p.append((k, shared))
                x, c, y = copy.deepcopy([shared, d, shared])
                ev.ok(x is y and x is not shared and
                      any(b is x for b in c.getlist(k)),
                      'deepcopy-splits-shared-values')
            else:
                c = pickle.loads(pickle.dumps(d, src.int(2, 5)))
            ev.ok(type(c) is cls, 'copy-class', observed=type(c))
            ev.ok(c is not d, 'copy-is-the-original')
            ev.ok(c == d and not (c != d), 'copy-not-equal')
            ev.hit('copied')
            pool.append((c, Model(c.items(multi=True))))
            if ordered:
                ev.eq(pool[-1][1].p, m.p, 'copy-content')
            else:
                ev.ok(same_pairs(pool[-1][1].p, m.p), 'copy-content')
        probes[0] = k
        for o, om in pool:
            read(ev, o, om, ordered, probes if o is d else probes[:1])
    d, m = pool[0]
    r = eval(repr(d), {cls.__name__: cls})
    ev.ok(r == d, 'repr', repr=repr(d))
    ev.key(*ops)
    ev.sample('history', ops=ops[:6], final=list(d.items(multi=True)))


def compare(src, ev):
    """Equality follows the content."""
    from verktyg.datastructures import (
        MultiDict, OrderedMultiDict, ImmutableMultiDict,
        ImmutableOrderedMultiDict)
    pairs = src.list(lambda: (key(src), val(src)), 4, 20)
    other = list(pairs)
    k = src.draw(5)
    if k == 0:
        other = src.shuffle(other)
    elif k == 1 and other:
        i = src.draw(len(other))
        other[i] = (other[i][0], val(src))
    elif k == 2 and other:
        del other[src.draw(len(other))]
    elif k == 3:
        other.insert(src.int(0, len(other)), (key(src), val(src)))
    a_cls = src.choice((MultiDict, OrderedMultiDict, ImmutableMultiDict,
                        ImmutableOrderedMultiDict))
    b_cls = src.choice((MultiDict, OrderedMultiDict, ImmutableMultiDict,
                        ImmutableOrderedMultiDict))
    a, b = a_cls(pairs), b_cls(other)
    both = isinstance(a, OrderedMultiDict) and isinstance(b, OrderedMultiDict)
    want = (pairs == other) if both else same_pairs(pairs, other)
    ev.note(a=a, b=b)
    ev.eq(a == b, want, 'equality')
    ev.eq(b == a, want, 'equality-not-symmetric')
    ev.eq(a != b, not want, 'inequality')
    ev.eq(b != a, not want, 'inequality')
    ev.ok(a != pairs and not (a == 5) and a != None,   # noqa: E711
          'equal-to-something-else')
    ev.hit('compared')
    ev.hit('compared-equal' if want else 'compared-different')
    ev.key('cmp', a_cls.__name__, b_cls.__name__, pairs, other)


def combined(src, ev):
    from verktyg.datastructures import (
        MultiDict, OrderedMultiDict, ImmutableMultiDict, CombinedMultiDict)
    n = src.size(3, 8)
    parts = []
    for _ in range(n):
        cls = src.choice((MultiDict, OrderedMultiDict, ImmutableMultiDict))
        parts.append(cls(src.list(lambda: (key(src), val(src)), 4, 20)))
    given = list(parts)
    c = CombinedMultiDict(given) if parts or src.bool() \
        else CombinedMultiDict()
    ev.note(parts=parts)
    probes = [key(src) for _ in range(4)] + ['a', 'b', 'missing']

    def check():
        m = Model()
        for p in parts:
            m.p += list(p.items(multi=True))
        read(ev, c, m, False, probes, combined=True)
        ev.eq(list(c.items(multi=True)), m.p, 'concatenation')
        for k in probes:
            want = 'DEF'
            for p in parts:
                if k in p:
                    ok, r = conv(to_int, p.getlist(k)[0])
                    if ok:
                        want = r
                        break
            ev.eq(c.get(k, 'DEF', type=to_int), want,
                  'get-conversion-differs', key=k)
        ev.hit('combined')
    check()
    # the parts are looked at, not copied
    for p in parts:
        if not isinstance(p, ImmutableMultiDict) and src.bool():
            k, v = key(src), val(src)
            p.add(k, v)
            probes.append(k)
            check()
    for k in ('copy', 'copy.copy', 'deepcopy', 'pickle'):
        o = {'copy': c.copy, 'copy.copy': lambda: copy.copy(c),
             'deepcopy': lambda: copy.deepcopy(c),
             'pickle': lambda: pickle.loads(pickle.dumps(c))}[k]()
        ev.ok(type(o) is CombinedMultiDict, 'copy-class', how=k)
        ev.eq(list(o.items(multi=True)), list(c.items(multi=True)),
              'copy-content', how=k)
        ev.hit('copied')
        if k != 'copy.copy' and isinstance(getattr(o, 'dicts', None), list):
            # a copy may be given further parts of its own
            o.dicts.append(MultiDict([('only-copy', 1)]))
            ev.eq(o.getlist('only-copy'), [1], 'copy-part-unseen', how=k)
            check()
            o.dicts.pop()
        if k in ('deepcopy', 'pickle') and parts and \
                not isinstance(parts[0], ImmutableMultiDict):
            parts[0].add('later', 1)
            ev.ok(o.getlist('later') != c.getlist('later'),
                  'copy-shares-parts', how=k)
            check()
    ev.key('comb', [list(p.items(multi=True)) for p in parts])


def conversion(src, ev):
    """TypeConversionDict."""
    from verktyg.datastructures import (
        TypeConversionDict, ImmutableTypeConversionDict)
    cls = src.choice((TypeConversionDict, ImmutableTypeConversionDict))
    pairs = src.list(lambda: (key(src), val(src)), 5)
    ref = dict(pairs)
    d = cls(pairs) if src.bool() else cls(dict(pairs))
    ev.note(pairs=pairs)
    ev.eq(dict(d), ref, 'content')
    for k in [key(src) for _ in range(4)] + list(ref)[:3]:
        ev.eq(d.get(k), ref.get(k), 'get-differs', key=k)
        ev.eq(d.get(k, 'DEF'), ref.get(k, 'DEF'), 'get-differs', key=k)
        for name, t in (('int', to_int), ('str', str),
                        ('list', lambda v: [v])):
            if k in ref:
                ok, r = conv(t, ref[k])
                ev.hit('converted')
            else:
                ok, r = False, None
            ev.eq(d.get(k, type=t), r if ok else None,
                  'get-conversion-differs', key=k, type=name)
            ev.eq(d.get(k, 'DEF', type=t), r if ok else 'DEF',
                  'get-conversion-differs', key=k, type=name)
        if k not in ref:
            ev.raises(KeyError, lambda: d[k], 'missing-key-found', key=k)
            ev.hit('missing-key')
        else:
            ev.eq(d[k], ref[k], 'getitem-differs', key=k)
    if cls is TypeConversionDict:
        k, v = key(src), val(src)
        d[k] = v
        ref[k] = v
        ev.eq(dict(d), ref, 'set')
        d.pop(k)
        ref.pop(k)
        ev.eq(dict(d), ref, 'pop')
    ev.key('conv', cls.__name__, pairs)


class Boom(Exception):
    pass


class Custom(TypeError):
    pass


def conversion_errors(src, ev):
    """Failures other than ValueError are not taken for a bad value."""
    from verktyg.datastructures import MultiDict, OrderedMultiDict, \
        CombinedMultiDict, TypeConversionDict

    exc = src.choice((Boom, Custom, TypeError, AttributeError, IndexError,
                      ZeroDivisionError, OverflowError, AssertionError))
    ev.note(exception=exc)

    def boom(v):
        raise exc()
    k = src.draw(4)
    d = (MultiDict([('a', 'x')]), OrderedMultiDict([('a', 'x')]),
         CombinedMultiDict([MultiDict([('a', 'x')])]),
         TypeConversionDict(a='x'))[k]
    ev.raises(exc, lambda: d.get('a', 1, type=boom), 'failure-hidden')
    if k < 3:
        ev.raises(exc, lambda: d.getlist('a', type=boom), 'failure-hidden')
    ev.hit('converted')


def files(src, ev):
    import io
    from verktyg.test import FileMultiDict
    from verktyg.http import FileStorage
    d = FileMultiDict()
    want = {}
    for _ in range(src.int(1, 6)):
        name = src.choice(('f', 'g', 'h'))
        data = gen.text(src).encode('utf-8')
        fn = src.choice((None, 'a.txt', 'b.png', 'noext', 'c.html', 'x.json'))
        ct = src.choice((None, 'text/x', 'image/png'))
        ev.note(name=name, filename=fn, content_type=ct)
        if src.bool(1, 4):
            fs = FileStorage(io.BytesIO(data), fn, name, ct)
            d.add_file(name, fs)
            ev.ok(d.getlist(name)[-1] is fs, 'file-storage-replaced')
            want.setdefault(name, []).append((data, None, None))
        else:
            d.add_file(name, io.BytesIO(data), fn, ct)
            guess = {'a.txt': 'text/plain', 'b.png': 'image/png',
                     'c.html': 'text/html', 'x.json': 'application/json'}
            t = ct or guess.get(fn) or 'application/octet-stream'
            want.setdefault(name, []).append((data, fn, t))
        ev.hit('file-added')
    ev.eq(set(d.keys()), set(want), 'keys')
    for k in want:
        got = d.getlist(k)
        ev.eq(len(got), len(want[k]), 'file-count', key=k)
        ev.ok(d[k] is got[0], 'first-file', key=k)
        for fs, (data, fn, t) in zip(got, want[k]):
            ev.eq(fs.read(), data, 'file-content', key=k)
            if t is not None:
                ev.eq(fs.content_type, t, 'file-type', key=k)
                ev.eq(fs.name, k, 'file-field', key=k)
                if fn:
                    ev.eq(fs.filename, fn, 'file-name', key=k)
    ev.key('files', sorted((k, [x[1:] for x in v]) for k, v in want.items()))


SCENARIOS = [
    Scenario('history', history, 4000, 60000),
    Scenario('compare', compare, 4000, 40000),
    Scenario('combined', combined, 1500, 20000),
    Scenario('conversion', conversion, 1000, 10000),
    Scenario('conversion-errors', conversion_errors, 40, 40),
    Scenario('files', files, 300, 3000),
]
