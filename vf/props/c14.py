"""Typed header views write through and read back."""
import datetime
import time

from vf.engine import Scenario
from vf import gen, rfc

RULE = ('histories of typed assignments, in-place edits, deletions and raw '
        'header edits on one response; after every step the raw header is '
        'read by an independent parser and compared with a model, and all '
        'attributes are read; distinct = hash of the history')
ASSUMPTIONS = ['set items differ without regard to case when a set is '
               'assigned', 'content types have a main type before parameters '
               'are set']
REQUIRED = {'auth-set-edit': 100, 'step': 20000, 'text': 800, 'date': 800, 'set-edit': 3000,
            'cache-edit': 2000, 'auth-edit': 1500, 'range-edit': 800,
            'params-edit': 800, 'deleted': 1000, 'emptied': 200,
            'quoted': 1000, 'others-untouched': 20000, 'raw-edit': 800,
            'read-all': 5000, 'held-view': 1500, 'callback-dict': 1000}

TEXT = {'location': 'Location', 'content_type': 'Content-Type',
        'content_location': 'Content-Location',
        'content_encoding': 'Content-Encoding', 'content_md5': 'Content-MD5',
        'accept_ranges': 'Accept-Ranges'}
DATES = {'date': 'Date', 'expires': 'Expires',
         'last_modified': 'Last-Modified'}
SETS = {'vary': 'Vary', 'content_language': 'Content-Language',
        'allow': 'Allow'}
ALL = list(TEXT) + list(DATES) + list(SETS) + [
    'content_length', 'mimetype', 'mimetype_params', 'retry_after',
    'cache_control', 'content_range', 'www_authenticate', 'status_code',
    'status']


def raw(r, name):
    return r.headers.getlist(name)


def others(r, name):
    return [(k, v) for k, v in r.headers if k.lower() != name.lower()]


def expect_one(ev, r, name, kind):
    vs = raw(r, name)
    ev.eq(len(vs), 1, kind + '-header-count', header=name, values=vs)
    return vs[0]


def item(src):
    """A set element."""
    k = src.draw(6)
    if k < 4:
        return src.choice(('Accept', 'Cookie', 'en', 'de-AT', 'GET', 'PUT',
                           'x', 'Y', 'accept-encoding', '*'))
    if k == 4:
        return gen.token(src)
    # letters whose upper and lower case are not each other's inverse are
    # not used: header text is ASCII
    return ''.join(c for c in gen.value(src, 60)
                   if c.swapcase().lower() == c.lower()).strip() or 'z'


def directive_value(src):
    k = src.draw(4)
    if k == 0:
        return str(gen.num(src))
    if k == 1:
        return gen.token(src)
    return gen.value(src, 60)


class Step(object):
    """Checks that only the header `name` changed."""

    def __init__(self, ev, r, name):
        self.ev, self.r, self.name = ev, r, name

    def __enter__(self):
        self.before = others(self.r, self.name)
        return self

    def __exit__(self, t, e, tb):
        if t is None:
            self.ev.hit('step')
            self.ev.eq(others(self.r, self.name), self.before,
                       'other-header-changed', header=self.name)
            self.ev.hit('others-untouched')


def read_all(ev, r):
    before = list(r.headers)
    for a in ALL:
        x = getattr(r, a)
        str(x), repr(x)
        if hasattr(x, 'items'):
            list(x.items())
    r.get_etag()
    ev.eq(list(r.headers), before, 'reading-changed-headers')
    ev.hit('read-all')


# -- text --------------------------------------------------------------------
def do_text(src, ev, r, st):
    a = src.choice(sorted(TEXT))
    name = TEXT[a]
    with Step(ev, r, name):
        if src.bool(1, 3):
            delattr(r, a)
            ev.eq(raw(r, name), [], 'not-deleted', attribute=a)
            ev.ok(getattr(r, a) is None, 'deleted-but-read', attribute=a)
            ev.hit('deleted')
            return (a, None)
        v = gen.value(src)
        setattr(r, a, v)
        ev.eq(expect_one(ev, r, name, 'text'), v, 'text-written',
              attribute=a)
        ev.eq(getattr(r, a), v, 'text-read-back', attribute=a)
        ev.hit('text')
        return (a, v)


def do_length(src, ev, r, st):
    with Step(ev, r, 'Content-Length'):
        if src.bool(1, 4):
            del r.content_length
            ev.eq(raw(r, 'Content-Length'), [], 'not-deleted')
            ev.ok(r.content_length is None, 'deleted-but-read')
            ev.hit('deleted')
            return 'content_length', None
        n = gen.num(src, 1 << 40)
        r.content_length = n
        ev.eq(expect_one(ev, r, 'Content-Length', 'length'), str(n),
              'length-written')
        ev.eq(r.content_length, n, 'length-read-back')
        ev.ok(type(r.content_length) is int, 'length-type')
        return 'content_length', n


def instant(src, t):
    """One instant in one of the forms that are accepted."""
    k = src.draw(5)
    y = rfc.fields(t)
    if k == 0:
        return rfc.naive(t)
    if k == 1:
        off = datetime.timedelta(minutes=src.int(-720, 720))
        try:
            return (rfc.naive(t) + off).replace(
                tzinfo=datetime.timezone(off))
        except OverflowError:
            return rfc.naive(t)
    if k == 2 and abs(t) < 1 << 35:
        return t
    if k == 3:
        return rfc.naive(t).replace(microsecond=src.int(0, 999999))
    return time.struct_time(y[:6] + (y[6], 1, 0))


def do_date(src, ev, r, st):
    a = src.choice(sorted(DATES))
    name = DATES[a]
    with Step(ev, r, name):
        if src.bool(1, 4):
            delattr(r, a)
            ev.eq(raw(r, name), [], 'not-deleted', attribute=a)
            ev.ok(getattr(r, a) is None, 'deleted-but-read')
            ev.hit('deleted')
            return (a, None)
        t = rfc.random_instant(src)
        v = instant(src, t)
        ev.note(value=v)
        setattr(r, a, v)
        ev.eq(expect_one(ev, r, name, 'date'), rfc.imf(t), 'date-written',
              attribute=a)
        ev.eq(getattr(r, a), rfc.naive(t), 'date-read-back', attribute=a)
        ev.hit('date')
        return (a, v)


def do_retry(src, ev, r, st):
    with Step(ev, r, 'Retry-After'):
        k = src.draw(3)
        if k == 0:
            r.retry_after = None
            ev.eq(raw(r, 'Retry-After'), [], 'not-deleted')
            ev.ok(r.retry_after is None, 'deleted-but-read')
            return 'retry', None
        if k == 1:
            n = gen.num(src, 1 << 24)
            r.retry_after = n if src.bool() else str(n)
            ev.eq(expect_one(ev, r, 'Retry-After', 'retry'), str(n),
                  'retry-written')
            a = datetime.datetime(1970, 1, 1) + datetime.timedelta(
                seconds=time.time())
            got = r.retry_after
            b = datetime.datetime(1970, 1, 1) + datetime.timedelta(
                seconds=time.time())
            s = datetime.timedelta(seconds=n)
            e = datetime.timedelta(seconds=2)
            ev.ok(a + s - e <= got <= b + s + e, 'retry-read-back', got=got)
            return 'retry', n
        t = rfc.random_instant(src)
        r.retry_after = rfc.naive(t)
        ev.eq(expect_one(ev, r, 'Retry-After', 'retry'), rfc.imf(t),
              'retry-written')
        ev.eq(r.retry_after, rfc.naive(t), 'retry-read-back')
        return 'retry', t


def do_mimetype(src, ev, r, st):
    with Step(ev, r, 'Content-Type'):
        m = src.choice((
            'text/html', 'text/plain', 'application/json', 'image/png',
            'application/xml', 'application/xhtml+xml', 'text/x',
            'application/x+xml', 'application/xml-dtd', 'image/svg+xml',
            'application/octet-stream', 'application/docxml', 'texture/x',
            'application/x-text', 'application/xmlx', 'application/a+xmlx',
            'audio/x+xml', 'application/+xml', 'x-text/plain'))
        r.mimetype = m
        textual = m.startswith('text/') or m == 'application/xml' or \
            m.startswith('application/') and m.endswith('+xml')
        main, opts = rfc.options(expect_one(ev, r, 'Content-Type', 'type'))
        ev.eq(main, m, 'mimetype-written')
        ev.eq(opts, [('charset', 'utf-8')] if textual else [],
              'mimetype-charset')
        ev.eq(r.mimetype, m, 'mimetype-read-back')
        ev.eq(dict(r.mimetype_params), dict(opts), 'params-read-back')
        return 'mimetype', m


def do_params(src, ev, r, st):
    with Step(ev, r, 'Content-Type'):
        m = 'text/html'
        model = {}
        if src.bool():
            r.mimetype = m
            model = {'charset': 'utf-8'}
        else:
            model = {}
            for _ in range(src.size(3)):
                model[gen.token(src).strip('"') or 'p'] = gen.token(src)
            r.headers['Content-Type'] = m + ''.join(
                src.choice((';', '; ', ' ; ')) + '%s=%s' % i
                for i in model.items())
        view = r.mimetype_params
        ev.eq(dict(view), model, 'params-parsed', header=r.content_type)
        log = []
        for _ in range(src.few(1, 4)):
            if src.bool(1, 3):
                view = r.mimetype_params
            else:
                ev.hit('held-view')
            if src.bool(1, 5):
                # the view is of the parameters only
                was, m = m, src.choice(('text/plain', 'application/x-y'))
                r.content_type = m + r.content_type[len(was):]
                ev.hit('main-type-changed')
            k = src.choice(sorted(model)) if model and src.bool() \
                else gen.token(src)
            op = src.draw(6)
            v = directive_value(src)
            if k == 'filename':
                # UNC paths of old browsers are read specially
                v = v.lstrip('\\')
            log.append((op, k, v))
            ev.note(params=log)
            if op <= 1:
                view[k] = v
                model[k] = v
            elif op == 2:
                if k in model:
                    del view[k]
                    del model[k]
            elif op == 3:
                view.update({k: v})
                model[k] = v
            elif op == 4:
                ev.eq(view.pop(k, 'DEF'), model.pop(k, 'DEF'), 'pop-result')
            else:
                ev.eq(view.setdefault(k, v), model.setdefault(k, v),
                      'setdefault-result')
            main, opts = rfc.options(
                expect_one(ev, r, 'Content-Type', 'type'))
            ev.eq(main, m, 'params-main-type')
            ev.eq(opts, list(model.items()), 'params-written',
                  header=r.content_type)
            ev.eq(dict(r.mimetype_params), model, 'params-read-back',
                  header=r.content_type)
            ev.eq(r.mimetype, m, 'params-mimetype')
            ev.hit('params-edit')
        return 'params', log


def check_set(ev, r, a, name, model):
    if not model:
        ev.eq(raw(r, name), [], 'empty-set-header', attribute=a)
        ev.hit('emptied')
    else:
        text = expect_one(ev, r, name, 'set')
        if '"' in text:
            ev.hit('quoted')
        try:
            got = rfc.word_list(text)
        except rfc.Bad as e:
            ev.fail('set-malformed', header=text, why=str(e))
        ev.eq(got, model, 'set-written', attribute=a, header=text)
    view = getattr(r, a)
    ev.eq(list(view), model, 'set-read-back', attribute=a)
    ev.eq(len(view), len(model), 'set-len', attribute=a)
    ev.eq(view.as_set(), set(x.lower() for x in model), 'set-as-set')
    ev.eq(view.as_set(preserve_casing=True), set(model), 'set-as-set')
    ev.eq(bool(view), bool(model), 'set-truth')
    for x in model[:4]:
        ev.ok(x in view, 'set-contains', item=x)
        if all(ord(c) < 128 for c in x):
            ev.ok(x.upper() in view, 'set-contains', item=x)
        ev.eq(view.find(x.lower()), [y.lower() for y in model].index(
            x.lower()), 'set-find', item=x)
        ev.eq(view.index(x), view.find(x), 'set-index', item=x)
    ev.ok('not-there-!' not in view, 'set-contains')
    ev.eq(view.find('not-there-!'), -1, 'set-find')
    ev.raises(IndexError, lambda: view.index('not-there-!'), 'set-index')


def pos(model, x):
    return [y.lower() for y in model].index(x.lower())


def do_set(src, ev, r, st):
    a = src.choice(sorted(SETS))
    name = SETS[a]
    model = st.setdefault(a, [])
    with Step(ev, r, name):
        k = src.draw(5)
        log = [a]
        if k == 0:
            items = []
            for _ in range(src.size(4, 20)):
                x = item(src)
                if x.lower() not in [y.lower() for y in items]:
                    items.append(x)
            from verktyg.http import HeaderSet
            f = src.choice((list, tuple, HeaderSet))
            setattr(r, a, f(items))
            model[:] = items
            log.append(('assign', items))
        elif k == 1:
            items = []
            for _ in range(src.int(0, 4)):
                x = gen.token(src)
                if x.lower() not in [y.lower() for y in items]:
                    items.append(x)
            setattr(r, a, src.choice((',', ', ', ' , ')).join(items))
            model[:] = items
            log.append(('text', items))
        elif k == 2:
            setattr(r, a, src.choice((None, (), '', [])))
            model[:] = []
            ev.hit('deleted')
        else:
            view = getattr(r, a)
            for _ in range(src.few(1, 5)):
                if src.bool(1, 3):
                    view = getattr(r, a)
                else:
                    ev.hit('held-view')
                x = item(src)
                if model and src.bool():
                    x = src.choice(model)
                    if src.bool():
                        x = x.swapcase()
                there = x.lower() in [y.lower() for y in model]
                op = src.draw(8)
                log.append((op, x))
                ev.note(attribute=a, edits=log)
                if op <= 1:
                    view.add(x)
                    if not there:
                        model.append(x)
                elif op == 2:
                    if there:
                        view.remove(x)
                        del model[pos(model, x)]
                    else:
                        ev.raises(KeyError, lambda: view.remove(x),
                                  'removed-missing')
                elif op == 3:
                    view.discard(x)
                    if there:
                        del model[pos(model, x)]
                elif op == 4:
                    xs = [x] + [item(src) for _ in range(src.size(3))]
                    view.update(iter(xs) if src.bool() else xs)
                    for y in xs:
                        if y.lower() not in [z.lower() for z in model]:
                            model.append(y)
                elif op == 5:
                    if model:
                        i = src.draw(len(model))
                        del view[i]
                        del model[i]
                elif op == 6:
                    if model:
                        i = pos(model, x) if there else src.draw(len(model))
                        ev.eq(view[i], model[i], 'set-getitem')
                        view[i] = x
                        model[i] = x
                elif src.bool(1, 3):
                    view.clear()
                    model[:] = []
                ev.eq(list(view), model, 'set-view', attribute=a)
                check_set(ev, r, a, name, model)
                ev.hit('set-edit')
        ev.note(attribute=a, edits=log)
        check_set(ev, r, a, name, model)
        return log


CC = (('no_cache', 'no-cache', '*', None), ('no_store', 'no-store', None,
                                            bool),
      ('max_age', 'max-age', -1, int), ('no_transform', 'no-transform', None,
                                        None),
      ('public', 'public', None, bool), ('private', 'private', '*', None),
      ('must_revalidate', 'must-revalidate', None, bool),
      ('proxy_revalidate', 'proxy-revalidate', None, bool),
      ('s_maxage', 's-maxage', None, None))


def cc_value(model, key, empty, t):
    if t is bool:
        return key in model
    if key not in model:
        return None
    v = model[key]
    if v is None:
        return empty
    if t is int:
        try:
            return int(v)
        except ValueError:
            return v
    return v


def check_cc(ev, r, model):
    if not model:
        ev.eq(raw(r, 'Cache-Control'), [], 'empty-cache-control')
        ev.hit('emptied')
    else:
        text = expect_one(ev, r, 'Cache-Control', 'cache')
        if '"' in text:
            ev.hit('quoted')
        try:
            got = rfc.pair_list(text)
        except rfc.Bad as e:
            ev.fail('cache-control-malformed', header=text, why=str(e))
        ev.eq(got, [(k, None if v is None else str(v))
                    for k, v in model.items()], 'cache-control-written',
              header=text)
    view = r.cache_control
    ev.eq(dict(view), {k: None if v is None else str(v)
                       for k, v in model.items()}, 'cache-control-read-back')
    for a, key, empty, t in CC:
        want = cc_value(model, key, empty, t)
        got = getattr(view, a)
        if want is not None and t is None and want != empty:
            want = str(want)
        ev.eq(got, want, 'cache-control-attribute', attribute=a)


def do_cache(src, ev, r, st):
    model = st.setdefault('cc', {})
    log = ['cc']
    with Step(ev, r, 'Cache-Control'):
        if src.bool(1, 6):
            model.clear()
            for _ in range(src.size(3)):
                model[src.choice(('no-cache', 'max-age', 'private', 'x-y',
                                  'public'))] = src.choice(
                                      (None, '5', 'a', 'b c'))
            if model:
                r.headers['cache-control'] = src.choice((',', ', ')).join(
                    k if v is None else '%s="%s"' % (k, v) if ' ' in v or
                    src.bool() else '%s=%s' % (k, v)
                    for k, v in model.items())
            else:
                r.headers.pop('cache-control', None)
            ev.hit('raw-edit')
            log.append(('raw', dict(model)))
            view = r.cache_control
            ev.eq(dict(view), model, 'cache-control-parsed')
            return log
        view = r.cache_control
        for _ in range(src.few(1, 5, 40)):
            if src.bool(1, 3):
                view = r.cache_control
            else:
                ev.hit('held-view')
            a, key, empty, t = src.choice(CC)
            op = src.draw(9)
            if t is bool:
                v = src.bool()
            elif t is int:
                v = src.choice((gen.num(src), 0, None))
            elif a == 'no_transform':
                v = src.choice((True, None))
            elif a == 's_maxage':
                v = src.choice((gen.num(src), None))
            else:
                v = src.choice((True, None, directive_value(src), 'f'))
            k2 = src.choice(('x', 'ext', 'no-cache', 'private', 'x1'))
            v2 = src.choice((None, directive_value(src)))
            log.append((op, a, v, k2, v2))
            ev.note(edits=log)
            if op <= 3:
                setattr(view, a, v)
                if v is True:
                    model[key] = None
                elif v is None or v is False and t is bool:
                    model.pop(key, None)
                else:
                    model[key] = v
            elif op == 4:
                delattr(view, a)
                model.pop(key, None)
            elif op == 5:
                view[k2] = v2
                model[k2] = v2
            elif op == 6:
                view.update({k2: v2})
                model[k2] = v2
            elif op == 7:
                view.pop(k2, None)
                model.pop(k2, None)
            elif src.bool(1, 3):
                view.clear()
                model.clear()
            else:
                view.setdefault(k2, v2)
                model.setdefault(k2, v2)
            check_cc(ev, r, model)
            ev.hit('cache-edit')
    return log


def do_range(src, ev, r, st):
    from verktyg.http import ContentRange
    with Step(ev, r, 'Content-Range'):
        start = gen.num(src, 10000)
        stop = start + 1 + gen.num(src, 1000)
        length = src.choice((None, stop + gen.num(src, 1000)))
        units = src.choice(('bytes', 'bytes', 'items'))
        want = '%s %d-%d/%s' % (units, start, stop - 1,
                                '*' if length is None else length)
        op = src.draw(8)
        ev.note(op=op, range=(units, start, stop, length))
        ev.hit('range-edit')
        if op == 0:
            r.content_range = ContentRange(units, start, stop, length)
        elif op == 1:
            r.content_range = want
        elif op == 2:
            r.content_range.set(start, stop, length, units)
        elif op == 3:
            # attribute by attribute on a held view
            v = r.content_range
            v.set(0, 1, None, units)
            v.length = length
            v.stop = stop
            v.start = start
            ev.hit('held-view')
        elif op == 4:
            length = stop if length is None else length
            if src.bool(1, 5):
                length = 0
            how = src.draw(4)
            if how == 0:
                r.content_range = ContentRange(units, None, None, length)
            elif how == 1:
                r.content_range.set(None, None, length, units)
            elif how == 2:
                r.headers['Content-Range'] = '%s */%d' % (units, length)
            else:
                # a view of a header that is there, changed
                r.headers['Content-Range'] = src.choice((
                    '%s */%d' % (units, length + 7), 'items */9',
                    '%s 0-5/%d' % (units, length + 7)))
                v = r.content_range
                if src.bool() and v.start is None and v.units == units:
                    v.length = length
                else:
                    v.set(None, None, length, units)
                ev.hit('view-of-header')
            ev.eq(expect_one(ev, r, 'Content-Range', 'range'),
                  '%s */%d' % (units, length), 'range-written')
            got = r.content_range
            ev.eq((got.units, got.start, got.stop, got.length),
                  (units, None, None, length), 'range-read-back')
            return 'range', op
        elif op == 5:
            r.content_range.set(start, stop, length, units)
            r.content_range.unset()
        elif op == 6:
            r.content_range = src.choice((None, ''))
        else:
            bad = src.choice((
                (stop, start, length), (start, stop, start), (None, stop, 5),
                (start, None, 5), (start, start, None), (-5, 3, 10)))
            before = list(r.headers)
            view = r.content_range
            old = view.units, view.start, view.stop, view.length
            if not (bad[2] is not None and bad[0] == start and
                    bad[1] == stop and start < bad[2]):
                ev.raises(ValueError, lambda: view.set(*bad),
                          'bad-range-accepted', range=bad)
                ev.eq((view.units, view.start, view.stop, view.length), old,
                      'refused-range-kept', range=bad)
                if src.bool():
                    ev.raises(ValueError, lambda: r.content_range.set(*bad),
                              'bad-range-accepted', range=bad)
            ev.eq(list(r.headers), before, 'refused-range-applied')
            return 'range', op
        if op in (5, 6):
            ev.eq(raw(r, 'Content-Range'), [], 'not-deleted')
            ev.ok(not r.content_range and r.content_range.units is None,
                  'deleted-but-read')
            ev.hit('deleted')
            return 'range', op
        ev.eq(expect_one(ev, r, 'Content-Range', 'range'), want,
              'range-written')
        got = r.content_range
        ev.eq((got.units, got.start, got.stop, got.length),
              (units, start, stop, length), 'range-read-back')
        ev.ok(bool(got), 'range-truth')
        return 'range', op


def check_auth(ev, r, kind, model):
    if kind is None and not model:
        ev.eq(raw(r, 'WWW-Authenticate'), [], 'empty-authenticate')
        ev.hit('emptied')
        ev.eq(dict(r.www_authenticate), {}, 'authenticate-read-back')
        return
    text = expect_one(ev, r, 'WWW-Authenticate', 'authenticate')
    scheme, _, rest = text.partition(' ')
    ev.eq(scheme.lower(), (kind or 'basic').lower(), 'authenticate-scheme',
          header=text)
    if '"' in text:
        ev.hit('quoted')
    try:
        got = rfc.pair_list(rest)
    except rfc.Bad as e:
        ev.fail('authenticate-malformed', header=text, why=str(e))
    ev.eq(dict(got), model, 'authenticate-written', header=text)
    ev.eq(len(got), len(model), 'authenticate-duplicates', header=text)
    # these have to be quoted whatever they contain (RFC 2617)
    for k in ('realm', 'nonce', 'opaque', 'domain'):
        if k in model:
            ev.ok('%s="' % k in rest, 'authenticate-unquoted', key=k,
                  header=text)
    v = r.www_authenticate
    want = dict(model)
    want['__auth_type__'] = (kind or 'basic').lower()
    ev.eq(dict(v), want, 'authenticate-read-back', header=text)
    ev.eq(v.type, want['__auth_type__'], 'authenticate-type')
    for a in ('realm', 'nonce', 'opaque', 'algorithm'):
        ev.eq(getattr(v, a), model.get(a), 'authenticate-attribute',
              attribute=a)
    ev.eq(v.stale, None if 'stale' not in model else
          model['stale'].lower() == 'true', 'authenticate-stale')
    if 'qop' in model:
        ev.eq(list(v.qop), [x for x in rfc.word_list(model['qop'])],
              'authenticate-qop')


def do_auth(src, ev, r, st):
    s = st.setdefault('auth', [None, {}])
    log = ['auth']
    with Step(ev, r, 'WWW-Authenticate'):
        view = r.www_authenticate
        for _ in range(src.few(1, 4)):
            if src.bool(1, 3):
                view = r.www_authenticate
            else:
                ev.hit('held-view')
            op = src.draw(11)
            v = directive_value(src)
            log.append((op, v))
            ev.note(edits=log)
            if op >= 9:
                # the sets inside the challenge
                a = src.choice(('qop', 'domain'))
                mine = [x for x in s[1].get(a, '').split(', ') if x]
                held = getattr(view, a)
                for _ in range(src.int(1, 3)):
                    ev.eq(list(held), mine, 'auth-set', attribute=a)
                    x = src.choice(('auth', 'auth-int', 'x', 'y-z'))
                    log.append((a, x))
                    if src.bool(3, 5):
                        held.add(x)
                        if x not in mine:
                            mine.append(x)
                    elif src.bool(1, 4):
                        held.clear()
                        mine = []
                    else:
                        held.discard(x)
                        if x in mine:
                            mine.remove(x)
                    ev.eq(list(getattr(view, a)), mine, 'auth-set-kept',
                          attribute=a)
                    ev.eq(list(getattr(r.www_authenticate, a)), mine,
                          'auth-set-written', attribute=a)
                s[1].pop(a, None)
                if mine:
                    s[1][a] = ', '.join(mine)
                ev.hit('auth-set-edit')
            elif op <= 1:
                view.set_basic(v)
                s[0], s[1] = 'basic', {'realm': v}
            elif op <= 3:
                kw, m = {}, {'realm': v, 'nonce': directive_value(src),
                             'qop': 'auth'}
                if src.bool():
                    q = src.choice((('auth',), ('auth', 'auth-int'),
                                    ['auth-int']))
                    kw['qop'] = q
                    m['qop'] = ', '.join(q)
                if src.bool():
                    kw['opaque'] = m['opaque'] = directive_value(src)
                if src.bool():
                    kw['algorithm'] = m['algorithm'] = src.choice(
                        ('MD5', 'SHA-256', 'MD5-sess', v))
                if src.bool():
                    kw['stale'] = True
                    m['stale'] = 'TRUE'
                view.set_digest(v, m['nonce'], **kw)
                s[0], s[1] = 'digest', m
            elif op == 4:
                a = src.choice(('realm', 'nonce', 'opaque', 'algorithm'))
                if src.bool(1, 4):
                    setattr(view, a, None)
                    s[1].pop(a, None)
                else:
                    setattr(view, a, v)
                    s[1][a] = v
            elif op == 5:
                b = src.choice((True, False, None))
                view.stale = b
                if b is None:
                    s[1].pop('stale', None)
                else:
                    s[1]['stale'] = 'TRUE' if b else 'FALSE'
            elif op == 6:
                k = gen.token(src)
                if src.bool(1, 4):
                    # as other programs write it
                    k = 'stale'
                    v = src.choice(('true', 'false', 'True', 'FALSE', 'TRUE',
                                    'no'))
                if not k.startswith('__') and k not in ('qop', 'domain'):
                    view[k] = v
                    s[1][k] = v
            elif op == 7:
                view.clear()
                s[0], s[1] = None, {}
            else:
                t = src.choice(('basic', 'digest', 'bearer', 'Negotiate'))
                view.type = t
                s[0] = t
            if s[0] is None and s[1]:
                s[0] = 'basic'
            if s[0] is not None and not s[1]:
                # a scheme alone; nothing to say about the parameters
                view.set_basic(v)
                s[0], s[1] = 'basic', {'realm': v}
            check_auth(ev, r, s[0], s[1])
            ev.hit('auth-edit')
    return log


def do_etag(src, ev, r, st):
    with Step(ev, r, 'ETag'):
        t = gen.value(src).replace('"', '')
        if src.bool(1, 10):
            t = ''
        w = src.bool()
        r.set_etag(t, weak=w)
        text = expect_one(ev, r, 'ETag', 'etag')
        ev.ok(text in (('W/"%s"' % t, 'w/"%s"' % t) if w else
                       ('"%s"' % t,)), 'etag-written', header=text, etag=t)
        ev.eq(r.get_etag(), (t, w), 'etag-read-back')
        if not r.direct_passthrough and src.bool():
            r.add_etag(weak=src.bool())
            ev.eq(r.get_etag(), (t, w), 'etag-overwritten')
        if src.bool(1, 3):
            del r.headers['etag']
            ev.eq(r.get_etag(), (None, None), 'etag-deleted')
            data = gen.text(src).encode('utf-8')
            r2 = type(r)(data)
            r2.add_etag(weak=w)
            a = r2.get_etag()
            ev.eq(a[1], w, 'etag-generated-weak')
            r2.add_etag()
            ev.eq(r2.get_etag(), a, 'etag-overwritten')
            r3 = type(r)(data)
            r3.add_etag(weak=w)
            ev.eq(r3.get_etag(), a, 'etag-not-deterministic')
            r3.set_data(data + b'x')
            r3.add_etag(overwrite=True, weak=w)
            ev.ok(r3.get_etag() != a, 'etag-same-for-different-data')
        return 'etag', t, w


def do_raw(src, ev, r, st):
    k = 'X-%d' % src.int(0, 3)
    with Step(ev, r, k):
        v = gen.value(src)
        if src.bool(1, 3):
            r.headers.pop(k, None)
        elif src.bool():
            r.headers.add(k, v)
        else:
            r.headers[k] = v
    ev.hit('raw-edit')
    return 'raw', k, v


OPS = [(3, do_text), (1, do_length), (3, do_date), (1, do_retry),
       (1, do_mimetype), (2, do_params), (6, do_set), (5, do_cache),
       (2, do_range), (4, do_auth), (1, do_etag), (2, do_raw)]


def history(src, ev):
    from verktyg.responses import Response
    r = Response(b'body', headers=[('X-0', 'a'), ('X-1', 'b'),
                                   ('X-0', 'c')])
    st = {}
    log = []
    for _ in range(src.size(6, 25)):
        op = src.weighted(OPS)
        ev.note(history=log[-4:], now=op.__name__)
        log.append(op(src, ev, r, st))
        read_all(ev, r)
        # values written earlier are still there
        for a in SETS:
            if a in st:
                check_set(ev, r, a, SETS[a], st[a])
        if 'cc' in st:
            check_cc(ev, r, st['cc'])
        if 'auth' in st:
            check_auth(ev, r, *st['auth'])
    ev.key(*log)
    ev.sample('history', log=log[:4], headers=list(r.headers))


PAIR = {
    'cache': 'Cache-Control', 'vary': 'Vary', 'range': 'Content-Range',
    'auth': 'WWW-Authenticate', 'params': 'Content-Type', 'lang':
    'Content-Language', 'allow': 'Allow'}


def pair_edit(src, kind, view):
    """Change a held view; the header text this makes."""
    n = src.int(0, 4)
    if kind == 'cache':
        view.clear()
        if src.bool():
            view.max_age = n
        else:
            view['max-age'] = str(n)
        return 'max-age=%d' % n
    if kind in ('vary', 'lang', 'allow'):
        view.clear()
        view.update(['i%d' % n, 'j'])
        return 'i%d, j' % n
    if kind == 'range':
        view.set(n, 10, 20)
        return 'bytes %d-9/20' % n
    if kind == 'auth':
        view.set_basic('r %d' % n)
        return 'Basic realm="r %d"' % n
    view['charset'] = 'c%d' % n
    return 'text/plain; charset=c%d' % n


def pairs(src, ev):
    """Several responses, their views held and changed in turn."""
    from verktyg.responses import Response
    rs = [Response(b'%d' % i, mimetype='text/plain')
          for i in range(src.int(2, 3))]
    attr = {'cache': 'cache_control', 'range': 'content_range', 'auth':
            'www_authenticate', 'params': 'mimetype_params', 'lang':
            'content_language'}
    views, want = {}, {}
    log = []
    for _ in range(src.few(3, 12, 50)):
        i, kind = src.draw(len(rs)), src.choice(sorted(PAIR))
        r, name = rs[i], PAIR[kind]
        before = [list(x.headers) for x in rs]
        if (i, kind) not in views or src.bool(1, 6):
            views[i, kind] = getattr(r, attr.get(kind, kind))
            ev.eq([list(x.headers) for x in rs], before,
                  'reading-changed-headers')
        if kind != 'params' and src.bool(1, 4):
            # the header goes, the view stays in use
            r.headers.pop(name, None)
            ev.hit('header-removed')
        text = pair_edit(src, kind, views[i, kind])
        log.append((i, kind, text))
        ev.note(log=log)
        ev.eq(expect_one(ev, r, name, kind).lower(), text.lower(),
              'pair-written', kind=kind)
        want[i, kind] = text
        for j, x in enumerate(rs):
            if j != i:
                ev.eq(list(x.headers), before[j], 'other-response-changed',
                      kind=kind)
        ev.hit('pair-edit')
    for (i, kind), text in want.items():
        ev.eq(expect_one(ev, rs[i], PAIR[kind], kind).lower(), text.lower(),
              'pair-kept', kind=kind)
    ev.key('pairs', log)
    ev.case()


def defaults(src, ev):
    """A fresh response has none of these headers and says so."""
    from verktyg.responses import Response
    r = Response()
    for a in ALL:
        if a in ('status_code', 'status', 'mimetype', 'content_type',
                 'mimetype_params', 'content_length'):
            continue
        v = getattr(r, a)
        ev.ok(v is None or not v, 'default-not-empty', attribute=a, value=v)
    read_all(ev, r)
    # malformed raw values read as absent
    for a, name in list(DATES.items()) + [('content_length',
                                           'Content-Length')]:
        x = gen.latin1(src)
        if x.strip().lstrip('+-').replace('_', '').isdigit():
            continue
        if a == 'content_length' or '-' not in x and ':' not in x and \
                not any(c.isdigit() for c in x):
            r.headers[name] = x
            ev.ok(getattr(r, a) is None, 'malformed-value', attribute=a,
                  header=x)
    read_all(ev, r)


def callbacks(src, ev):
    """CallbackDict: called after every change, never on reading."""
    from verktyg.datastructures import CallbackDict
    seen = []
    init = {src.choice('abc'): 1 for _ in range(src.size(3))}
    d = CallbackDict(dict(init), on_update=lambda x: seen.append(
        (x is d, dict(x))))
    m = dict(init)
    log = []
    for _ in range(src.few(1, 10, 50)):
        k, v = src.choice('abcd'), src.int(0, 5)
        op = src.draw(12)
        log.append((op, k, v))
        ev.note(init=init, log=log)
        n = len(seen)
        before = dict(m)
        changed = True
        if op == 0:
            d[k] = v
            m[k] = v
        elif op == 1:
            if k in m:
                del d[k]
                del m[k]
            else:
                ev.raises(KeyError, lambda: d.__delitem__(k), 'del-missing')
        elif op == 2:
            d.update({k: v, 'z': 1})
            m.update({k: v, 'z': 1})
        elif op == 3:
            d.update([(k, v)], y=2)
            m.update([(k, v)], y=2)
        elif op == 4:
            ev.eq(d.pop(k, None), m.pop(k, None), 'pop-result')
        elif op == 5:
            if k in m:
                ev.eq(d.pop(k), m.pop(k), 'pop-result')
            else:
                ev.raises(KeyError, lambda: d.pop(k), 'pop-missing')
        elif op == 6:
            ev.eq(d.setdefault(k, v), m.setdefault(k, v),
                  'setdefault-result')
        elif op == 7:
            if m:
                a = d.popitem()
                ev.eq(m.pop(a[0]), a[1], 'popitem-result')
        elif op == 8:
            if src.bool(1, 3):
                d.clear()
                m.clear()
        elif op == 9:
            d |= {k: v}
            m[k] = v
        else:
            d.get(k), k in d, len(d), list(d), list(d.items()), repr(d)
            changed = False
            ev.eq(len(seen), n, 'callback-on-read')
        if m != before:
            ev.ok(len(seen) > n, 'callback-missing')
        if len(seen) > n:
            ev.ok(changed, 'callback-on-read')
            ev.eq(seen[-1], (True, m), 'callback-state')
        ev.eq(dict(d), m, 'dict-content')
        ev.hit('callback-dict')
    ev.key('cb', init, log)


SCENARIOS = [
    Scenario('history', history, 4000, 60000),
    Scenario('pairs', pairs, 1200, 15000),
    Scenario('defaults', defaults, 400, 4000),
    Scenario('callbacks', callbacks, 1000, 15000),
]
