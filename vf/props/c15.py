"""Header serialisation round trips."""
import base64
import string

from vf.engine import Scenario
from vf import gen, rfc

RULE = ('values of every header type written by the library, read by an '
        'independent RFC 7230 reader and by the library; and the same values '
        'written by an independent client (random white space, quoting, '
        'empty elements) read by the library; distinct = hash of the text')
ASSUMPTIONS = ['values without CR and LF', 'names are tokens',
               'entity tags contain no double quote',
               'header text has no white space at its ends']
REQUIRED = {'scheme-refused': 200, 'word': 4000, 'word-bare': 500, 'word-quoted': 1500,
            'list-written': 1500, 'list-foreign': 1500, 'set-written': 500,
            'set-foreign': 500,
            'dict-written': 1500, 'dict-foreign': 1500,
            'options-written': 1500, 'options-foreign': 1000,
            'header-options': 500, 'etags-written': 800,
            'etags-foreign': 800, 'etags-star': 100, 'etag-single': 800,
            'cache-written': 800, 'cache-foreign': 800,
            'accept-written': 800, 'accept-foreign': 800,
            'basic': 800, 'digest': 800, 'digest-refused': 200,
            'challenge': 800, 'challenge-parsed': 800,
            'empty-element': 500, 'escaped': 500}


def http():
    import verktyg.http
    return verktyg.http


# -- an independent client -------------------------------------------------
def esc(src, v, needless=True):
    out = []
    for c in v:
        if c in '"\\' or needless and src.draw(12) == 11:
            out.append('\\')
        out.append(c)
    return '"%s"' % ''.join(out)


def spell(src, v, needless=True):
    """A legal spelling of a value."""
    if rfc.is_token(v) and src.bool(2, 3):
        return v
    return esc(src, v, needless)


def ws(src):
    return src.choice(('', '', ' ', '\t', '  ', ' \t'))


def equals(src):
    return src.choice(('=', '=', '=', ' = ', '= ', ' =', '=\t', '\t=',
                       ' \t=\t ', '=  '))


def join(src, ev, items, sep=',', empty=True):
    """Puts list elements together; surplus separators allowed."""
    out = []
    for i, it in enumerate(items):
        if i:
            out.append(ws(src) + sep + ws(src))
        if empty and src.draw(10) == 9:
            out.append(sep + ws(src))
            ev.hit('empty-element')
        out.append(it)
    if empty and items and src.draw(10) == 9:
        out.append(ws(src) + sep)
        ev.hit('empty-element')
    return ''.join(out)


def read(ev, fn, text, kind):
    try:
        return fn(text)
    except rfc.Bad as e:
        ev.fail(kind + '-malformed', header=text, why=str(e))


def names(src, typical=4, big=40):
    """Distinct token names."""
    out = []
    for _ in range(src.size(typical, big)):
        n = gen.token(src, 4, 30)
        if n not in out:
            out.append(n)
    return out


# -- scenarios -------------------------------------------------------------
def word(src, ev):
    h = http()
    v = gen.value(src)
    ev.note(value=v)
    allow = src.bool(2, 3)
    given = v
    if src.draw(8) == 7:
        try:
            given = v.encode('latin1')
        except UnicodeEncodeError:
            pass
    t = h.quote_header_value(given, allow_token=allow)
    ev.eq(read(ev, rfc.word, t, 'word'), v, 'word-text', header=t)
    ev.eq(h.unquote_header_value(t), v, 'word-round-trip', header=t)
    bare = allow and rfc.is_token(v)
    ev.eq(t == v, bare, 'needless-or-missing-quotes', header=t, allow=allow)
    if '\\' in t:
        ev.hit('escaped')
    ev.hit('word-bare' if bare else 'word-quoted')
    ev.hit('word')
    extra = src.choice(('/', '()', ' ', ':=', '@'))
    t = h.quote_header_value(v, extra_chars=extra)
    ev.eq(h.unquote_header_value(t), v, 'word-extra-round-trip', header=t,
          extra=extra)
    if v and all(c in rfc.TOKEN or c in extra for c in v):
        ev.eq(t, v, 'word-extra-quoted', header=t, extra=extra)
    ev.key(v, allow)
    ev.case()


def lists(src, ev):
    h = http()
    vs = src.list(lambda: gen.value(src, 60), 5, 60)
    ev.note(values=vs)
    if src.bool():
        t = h.dump_header(vs if src.bool() else tuple(vs))
        ev.eq(read(ev, rfc.word_list, t, 'list'), vs, 'list-text', header=t)
        ev.hit('list-written')
    else:
        t = join(src, ev, [spell(src, v) for v in vs])
        ev.hit('list-foreign')
    if '\\' in t:
        ev.hit('escaped')
    got = h.parse_list_header(t)
    ev.eq(got, vs, 'list-parsed', header=t)
    got.append('mine')
    ev.eq(h.parse_list_header(t), vs, 'list-parsed-again', header=t)
    ev.key(t)
    ev.case()


def fold(c):
    return c.swapcase().lower() == c.lower() and c.lower().upper() == c.upper()


def sets(src, ev):
    h = http()
    vs, seen = [], set()
    for v in src.list(lambda: gen.value(src, 40), 5, 40):
        v = ''.join(c for c in v if fold(c))
        if v.lower() not in seen:
            seen.add(v.lower())
            vs.append(v)
    ev.note(values=vs)
    if src.bool():
        given = list(vs)
        hs = h.HeaderSet(given)
        given.append('mine')
        hs.as_set().add('mine')
        hs.as_set(preserve_casing=True).add('mine')
        ev.eq((list(hs), hs.as_set(True), hs.as_set()),
              (vs, set(vs), set(x.lower() for x in vs)), 'set-shared')
        hs.add('x-mine')
        ev.eq(given, vs + ['mine'], 'set-argument-changed')
        hs = h.HeaderSet(vs)
        t = hs.to_header()
        ev.eq(read(ev, rfc.word_list, t, 'set'), vs, 'set-text', header=t)
        ev.eq(str(hs), t, 'set-str')
        ev.eq(h.dump_header(hs), t, 'set-dump')
        ev.hit('set-written')
    else:
        t = join(src, ev, [spell(src, v) for v in vs])
        ev.hit('set-foreign')
    got = h.parse_set_header(t)
    ev.eq(list(got), vs, 'set-parsed', header=t)
    ev.eq(len(got), len(vs), 'set-len', header=t)
    for i, v in enumerate(vs):
        for x in (v, v.upper(), v.lower()):
            ev.ok(x in got, 'set-member', header=t, item=x)
            ev.eq(got.find(x), i, 'set-find', header=t, item=x)
    x = gen.token(src)
    ev.eq(x in got, x.lower() in seen, 'set-non-member', header=t, item=x)
    got.add('x-mine')
    got.as_set().add('x-other')
    ev.ok('x-other' in seen or 'x-other' not in got, 'set-shared', header=t)
    ev.eq(list(h.parse_set_header(t)), vs, 'set-parsed-again', header=t)
    ev.key(t)
    ev.case()


def pairs(src, value=None):
    return {n: None if src.draw(5) == 4 else
            (value or gen.value)(src, 40) for n in names(src)}


def dicts(src, ev):
    h = http()
    d = pairs(src)
    ev.note(values=d)
    if src.bool():
        given = dict(d)
        for k in d:
            if d[k] is not None and src.draw(8) == 7:
                given[k] = gen.num(src)
                d[k] = str(given[k])
        allow = src.bool(3, 4)
        t = h.dump_header(given, allow_token=allow)
        ev.eq(read(ev, rfc.pair_list, t, 'dict'), list(d.items()),
              'dict-text', header=t)
        ev.hit('dict-written')
    else:
        t = join(src, ev, [
            k if v is None else k + equals(src)
            + spell(src, v) for k, v in d.items()])
        ev.hit('dict-foreign')
    if '\\' in t:
        ev.hit('escaped')
    given = t
    if src.draw(8) == 7 and all(ord(c) < 256 for c in t):
        given = t.encode('latin1')
    got = h.parse_dict_header(given)
    ev.eq(list(got.items()), list(d.items()), 'dict-parsed', header=t)
    got['mine'] = 'x'
    ev.eq(list(h.parse_dict_header(given).items()), list(d.items()),
          'dict-parsed-again', header=t)
    ev.key(t)
    ev.case()


def option_values(src):
    d = pairs(src)
    if d.get('filename'):
        d['filename'] = d['filename'].lstrip('\\')
    return d


def main_value(src):
    return src.choice(('text/html', 'attachment', 'form-data', 'inline',
                       'application/x+json', 'multipart/form-data', 'a/b',
                       gen.token(src), gen.token(src) + '/' + gen.token(src)))


def options(src, ev):
    h = http()
    m, d = main_value(src), option_values(src)
    ev.note(main=m, values=d)
    if src.bool():
        t = h.dump_options_header(m, d)
        ev.hit('options-written')
        got = read(ev, rfc.options, t, 'options')
        ev.eq(got[0], m, 'options-main-text', header=t)
        ev.eq(got[1], list(d.items()), 'options-text', header=t)
    else:
        t = join(src, ev, [m], ';', False)
        for k, v in d.items():
            t += ws(src) + ';' + ws(src) + k
            if v is not None:
                t += equals(src) + spell(src, v, False)
            if src.draw(12) == 11:
                t += ';'
        ev.hit('options-foreign')
    if '\\' in t:
        ev.hit('escaped')
    got = h.parse_options_header(t)
    ev.eq(got[0], m, 'options-main-parsed', header=t)
    ev.eq(list(got[1].items()), list(d.items()), 'options-parsed', header=t)
    got[1]['mine'] = 'x'
    got = h.parse_options_header(t)
    ev.eq((got[0], list(got[1].items())), (m, list(d.items())),
          'options-parsed-again', header=t)
    ev.key(t)
    ev.case()


def header_options(src, ev):
    """Headers.add / set with keyword options."""
    h = http()
    m = main_value(src)
    kw = {}
    for _ in range(src.few(1, 4, 20)):
        k = gen.text(src, string.ascii_letters + '_', 4, 20, 1)
        v = gen.value(src, 40)
        kw[k] = v.lstrip('\\') if k == 'filename' else v
    if len(set(k.replace('_', '-') for k in kw)) != len(kw):
        return
    headers = h.Headers([('A', 'b'), ('C', 'd')])
    op = src.choice(('add', 'set', 'add_header'))
    ev.note(main=m, values=kw, op=op)
    getattr(headers, op)('X-Opt', m, **kw)
    ev.eq(list(headers)[:2], [('A', 'b'), ('C', 'd')], 'header-others')
    ev.eq(len(headers), 3, 'header-count')
    t = headers['x-opt']
    got = read(ev, rfc.options, t, 'options')
    want = [(k.replace('_', '-'), v) for k, v in kw.items()]
    ev.eq(got[0], m, 'options-main-text', header=t)
    ev.eq(got[1], want, 'options-text', header=t)
    got = h.parse_options_header(t)
    ev.eq((got[0], list(got[1].items())), (m, want), 'options-parsed',
          header=t)
    ev.hit('header-options')
    ev.key(t)
    ev.case()


def tag(src):
    k = src.draw(8)
    if k < 4:
        return src.choice(('a', 'b', 'abc', 'W/', 'w/x', '*', '', 'a,b',
                           'a, b', ',', ' ', 'a b', '0', 'W'))
    if k < 6:
        return gen.token(src)
    return gen.value(src, 60).replace('"', '')


def entity_tags(t):
    """#( [W/] DQUOTE opaque DQUOTE ) -> (strong, weak)"""
    out, i = ([], []), 0
    while i < len(t):
        if t[i] in ', \t':
            i += 1
            continue
        w = t[i:i + 2] in ('w/', 'W/')
        i += 2 * w
        j = t.find('"', i + 1)
        if t[i:i + 1] != '"' or j < 0:
            raise rfc.Bad('no entity tag at %d' % i)
        out[w].append(t[i + 1:j])
        i = j + 1
        if t[i:i + 1] not in (',', ' ', '\t', ''):
            raise rfc.Bad('text after entity tag at %d' % i)
    return out


def etags(src, ev):
    h = http()
    if src.draw(8) == 7:
        t = '*'
        if src.bool():
            t = h.ETags(star_tag=True).to_header()
        e = h.parse_etags(t)
        ev.ok(e.star_tag and e, 'star', header=t)
        for x in (tag(src), tag(src)):
            ev.ok(x in e and e.contains(x) and e.contains_weak(x),
                  'star-contains', item=x)
        ev.hit('etags-star')
        return
    strong = src.list(lambda: tag(src), 4, 40)
    weak = [w for w in src.list(lambda: tag(src), 3, 30)]
    ev.note(strong=strong, weak=weak)
    if src.bool():
        e = h.ETags(strong, weak)
        t = e.to_header()
        got_s, got_w = read(ev, entity_tags, t, 'etags')
        ev.eq((sorted(got_s), sorted(got_w)),
              (sorted(set(strong)), sorted(set(weak))), 'etags-text',
              header=t)
        check_etags(ev, e, strong, weak, 'built', src)
        ev.hit('etags-written')
    else:
        items = []
        for x in strong:
            if rfc.is_token(x) and x != '*' and src.draw(4) == 3:
                items.append(x)         # some clients do not quote
            else:
                items.append('"%s"' % x)
        items += [src.choice(('W/', 'w/')) + '"%s"' % x for x in weak]
        t = join(src, ev, src.shuffle(items))
        ev.hit('etags-foreign')
    check_etags(ev, h.parse_etags(t), strong, weak, 'parsed', src, t)
    ev.key(t)
    ev.case()


def check_etags(ev, e, strong, weak, how, src, t=None):
    h = http()
    S, W = set(strong), set(weak)
    ev.ok(not e.star_tag, 'etags-star', header=t)
    ev.eq(bool(e), bool(S or W), 'etags-bool', header=t, how=how)
    ev.eq(e.as_set(), S, 'etags-set', header=t, how=how)
    ev.eq(set(e), S, 'etags-iter', header=t, how=how)
    ev.eq(e.as_set(include_weak=True), S | W, 'etags-all', header=t, how=how)
    e.as_set().add('mine')
    e.as_set(include_weak=True).add('mine')
    ev.eq((e.as_set(), set(e)), (S, S), 'etags-set-shared', header=t)
    for x in list(S | W)[:6] + [tag(src)]:
        ev.eq(x in e, x in S, 'etags-contains', item=x, header=t, how=how)
        ev.eq(e.contains(x), x in S, 'etags-contains', item=x, how=how)
        ev.eq(e.contains_weak(x), x in S or x in W, 'etags-contains-weak',
              item=x, header=t, how=how)
        ev.eq(e.is_weak(x), x in W, 'etags-is-weak', item=x, how=how)
        ev.eq(e(x), x in S, 'etags-call', item=x, how=how)
        ev.eq(e(x, include_weak=True), x in S or x in W, 'etags-call-weak',
              item=x, how=how)
        if x:
            ev.eq(e.contains_raw(h.quote_etag(x)), x in S, 'etags-raw',
                  item=x, how=how)
            ev.eq(e.contains_raw(h.quote_etag(x, weak=True)),
                  x in S or x in W, 'etags-raw-weak', item=x, how=how)


def single_etag(src, ev):
    h = http()
    x, w = tag(src), src.bool()
    t = h.quote_etag(x, weak=w)
    ev.note(tag=x, weak=w)
    ev.ok(t in (('w/"%s"' % x, 'W/"%s"' % x) if w else ('"%s"' % x,)),
          'etag-text', header=t)
    ev.eq(h.unquote_etag(t), (x, w), 'etag-round-trip', header=t)
    foreign = ws(src) + (src.choice(('w/', 'W/')) if w else '') + \
        '"%s"' % x + ws(src)
    ev.eq(h.unquote_etag(foreign), (x, w), 'etag-foreign', header=foreign)
    ev.raises(ValueError, lambda: h.quote_etag(x + '"' + x),
              'etag-with-quote-accepted')
    f = h.parse_if_range_header(t)
    if f.date is None:
        ev.eq(f.etag, x, 'if-range-etag', header=t)
    ev.hit('etag-single')
    ev.key(t)
    ev.case()


FLAGS = {'no-store': 'no_store', 'only-if-cached': 'only_if_cached',
         'public': 'public', 'must-revalidate': 'must_revalidate',
         'proxy-revalidate': 'proxy_revalidate'}
INTS = {'max-age': 'max_age', 'max-stale': 'max_stale',
        'min-fresh': 'min_fresh', 's-maxage': 's_maxage'}
WORDS = {'no-cache': 'no_cache', 'private': 'private',
         'no-transform': 'no_transform'}


def cache(src, ev):
    h = http()
    cls = src.choice((h.RequestCacheControl, h.ResponseCacheControl))
    d = {}
    for k in src.shuffle(list(FLAGS) + list(INTS) + list(WORDS)):
        if not src.bool(1, 3):
            continue
        if k in FLAGS:
            d[k] = None
        elif k in INTS:
            d[k] = None if src.draw(8) == 7 else str(gen.num(src, 1 << 40))
        else:
            d[k] = None if src.bool() else gen.value(src, 30)
    for n in names(src, 2, 5):
        if n not in FLAGS and n not in INTS and n not in WORDS:
            d[n] = gen.value(src, 30)
    ev.note(values=d, cls=cls.__name__)
    if src.bool():
        given = {k: int(v) if k in INTS and v is not None and src.bool()
                 else v for k, v in d.items()}
        t = cls(given).to_header()
        ev.eq(read(ev, rfc.pair_list, t, 'cache'), list(d.items()),
              'cache-text', header=t)
        ev.hit('cache-written')
    else:
        t = join(src, ev, [k if v is None else k + '=' + spell(src, v)
                           for k, v in d.items()])
        ev.hit('cache-foreign')
    c = h.parse_cache_control_header(t, cls=cls)
    ev.eq(dict(c), d, 'cache-parsed', header=t)
    ev.ok(isinstance(c, cls), 'cache-class')
    for table in (FLAGS, INTS, WORDS):
        for k, a in table.items():
            if not hasattr(cls, a):
                continue
            got = getattr(c, a)
            if table is FLAGS:
                ev.eq(got, k in d, 'cache-flag', header=t, name=k)
            elif k not in d:
                ev.eq(got, None, 'cache-absent', header=t, name=k)
            elif d[k] is None:
                continue
            elif table is INTS:
                ev.eq(int(got), int(d[k]), 'cache-int', header=t, name=k)
            else:
                ev.eq(got, d[k], 'cache-word', header=t, name=k)
    ev.eq(read(ev, rfc.pair_list, str(c), 'cache'), list(d.items()),
          'cache-rewritten', header=str(c))
    if cls is h.ResponseCacheControl:
        c['mine'] = 'x'
        ev.eq(dict(h.parse_cache_control_header(t, cls=cls)), d,
              'cache-parsed-again', header=t)
    ev.key(t)
    ev.case()


def alnum(src, hi=8):
    return '-'.join(gen.text(src, string.ascii_letters + string.digits,
                             3, hi, 1) for _ in range(src.int(1, 2)))


def accepts(src, ev):
    from verktyg import accept
    kind = src.draw(3)
    if kind == 0:
        from verktyg.accept.content_type import (
            ContentTypeAccept as cls, parse_accept_header as parse)

        def val():
            return src.choice(('*/*', 'text/*', 'text/html', 'a/b+xml',
                               alnum(src) + '/' + alnum(src),
                               alnum(src) + '/*',
                               'a/vnd.' + alnum(src) + '+' + alnum(src)))
    elif kind == 1:
        from verktyg.accept.language import (
            LanguageAccept as cls, parse_accept_language_header as parse)

        def val():
            return src.choice(('*', 'en', 'en-GB', 'de', alnum(src)))
    else:
        from verktyg.accept.charset import (
            CharsetAccept as cls, parse_accept_charset_header as parse)

        def val():
            return src.choice(('*', 'utf-8', 'iso-8859-1', alnum(src)))
    items = []
    for _ in range(max(1, src.size(4, 40))):
        q = src.choice((1000, 1000, 0, 1, 999, 500, src.int(0, 1000)))
        params = {}
        if kind == 0:
            for n in names(src, 1, 3):
                if n.lower() != 'q':
                    params[n] = gen.token(src)
        items.append((val(), q, params))
    ev.note(kind=kind, items=items)
    if src.bool():
        a = cls([(v, q / 1000.0, p) for v, q, p in items])
        t = a.to_header()
        ev.eq(str(a), t, 'accept-str')
        ev.hit('accept-written')
        for part, (v, q, p) in zip(t.split(','), items):
            m, opts = rfc.options(part)
            ev.eq(m, v, 'accept-text-value', header=t)
            opts = dict(opts)
            ev.eq(round(1000 * float(opts.pop('q', 1))), q,
                  'accept-text-quality', header=t)
            ev.eq(opts, p, 'accept-text-params', header=t)
    else:
        parts = []
        for v, q, p in items:
            ps = ['%s=%s' % i for i in p.items()]
            if q != 1000 or src.bool():
                s = '%.3f' % (q / 1000.0)
                if src.bool():
                    s = s.rstrip('0').rstrip('.') or '0'
                ps.append('q=' + s)
            parts.append(join(src, ev, [v] + ps, ';', False))
        t = join(src, ev, parts)
        ev.hit('accept-foreign')
    got = [(o.value, round(o.q * 1000), dict(o.params)) for o in parse(t)]
    ev.eq(got, items, 'accept-parsed', header=t)
    ev.key(t)
    ev.case()


def case(src, s):
    return src.choice((s, s.upper(), s.lower(), s.swapcase()))


def basic(src, ev):
    h = http()
    raw = bytes(range(256))
    if src.bool():
        user, pw = gen.text(src), gen.text(src)
        user = user.replace(':', '').encode('utf-8')
        pw = pw.encode('utf-8')
    else:
        user = bytes(src.choice(raw) for _ in range(src.size(6, 60)))
        user = user.replace(b':', b'')
        pw = bytes(src.choice(raw) for _ in range(src.size(6, 60)))
    t = case(src, 'Basic') + src.choice((' ', ' ', '  ')) + \
        base64.b64encode(user + b':' + pw).decode('ascii')
    ev.note(user=user, password=pw)
    for a in (h.parse_authorization_header(t), request_auth(t)):
        ev.ok(a is not None, 'basic-refused', header=t)
        ev.eq(a.type, 'basic', 'basic-type', header=t)
        ev.eq(a.username, user.decode('latin1'), 'basic-user', header=t)
        ev.eq(a.password, pw.decode('latin1'), 'basic-password', header=t)
    ev.hit('basic')
    ev.key(t)
    ev.case()


def request_auth(t):
    from verktyg.requests import Request
    return Request(gen.environ(headers=[('Authorization', t)])).authorization


def latin(src, hi=40):
    return ''.join(c for c in gen.value(src, hi) if ord(c) < 256)


def digest(src, ev):
    h = http()
    need = ['username', 'realm', 'nonce', 'uri', 'response']
    d = {k: latin(src) for k in need}
    if src.bool():
        d['qop'] = src.choice(('auth', 'auth-int'))
        d['nc'] = '%08x' % gen.num(src)
        d['cnonce'] = latin(src) or 'c'
    for k in ('opaque', 'algorithm', gen.token(src)):
        if src.bool(1, 3) and k not in d and \
                k not in ('qop', 'nc', 'cnonce'):
            d[k] = latin(src)
    missing = None
    if src.draw(5) == 4:
        missing = src.choice(need + (['nc', 'cnonce'] if 'qop' in d else []))
        del d[missing]
    items = src.shuffle(list(d.items()))
    t = case(src, 'Digest') + ' ' + join(src, ev, [
        k + src.choice(('=', '=', '=', ' = ')) + spell(src, v)
        for k, v in items])
    ev.note(values=d, missing=missing)
    if src.bool(1, 4):
        # the same parameters below a scheme nobody knows, or without any
        rest = t.split(' ', 1)[1]
        bad = src.choice(('Digestx ' + rest, 'Bearer ' + rest,
                          gen.token(src) + 'q ' + rest, 'Dig ' + rest,
                          'Digest', 'Basic', 'digest '))
        ev.note(header=bad)
        for a in (h.parse_authorization_header(bad), request_auth(bad)):
            ev.eq(a, None, 'unknown-scheme-accepted', header=bad)
            ev.hit('scheme-refused')
    for a in (h.parse_authorization_header(t), request_auth(t)):
        if missing:
            ev.eq(a, None, 'digest-accepted', header=t)
            ev.hit('digest-refused')
            continue
        ev.ok(a is not None, 'digest-refused', header=t)
        ev.eq(a.type, 'digest', 'digest-type', header=t)
        ev.eq(dict(a), d, 'digest-values', header=t)
        for k in need + ['nc', 'cnonce', 'opaque']:
            ev.eq(getattr(a, k), d.get(k), 'digest-attribute', name=k,
                  header=t)
        ev.eq(list(a.qop), [d['qop']] if 'qop' in d else [], 'digest-qop',
              header=t)
        ev.hit('digest')
    ev.key(t)
    ev.case()


QUOTED = ('domain', 'nonce', 'opaque', 'realm', 'qop')


def challenge(src, ev):
    h = http()
    w = h.WWWAuthenticate()
    k = src.draw(3)
    if k == 0:
        realm = gen.value(src)
        w.set_basic(realm)
        scheme, d = 'basic', {'realm': realm}
    elif k == 1:
        qop = src.choice((('auth',), ('auth', 'auth-int'), ('auth-int',)))
        d = {'realm': gen.value(src), 'nonce': gen.value(src),
             'qop': ', '.join(qop)}
        opaque = gen.value(src) if src.bool() else None
        alg = src.choice((None, 'MD5', 'SHA-256', gen.value(src)))
        stale = src.bool()
        w.set_digest(d['realm'], d['nonce'], qop, opaque, alg, stale)
        if opaque is not None:
            d['opaque'] = opaque
        if alg is not None:
            d['algorithm'] = alg
        if stale:
            d['stale'] = 'TRUE'
        scheme = 'digest'
    else:
        scheme = gen.text(src, string.ascii_lowercase, 6, 20, 1)
        d = {n: gen.value(src) for n in names(src, 3, 10)
             if not n.startswith('__')} or {'x': 'y'}
        w = h.WWWAuthenticate(scheme, d)
    t = w.to_header()
    ev.note(scheme=scheme, values=d)
    got, _, rest = t.partition(' ')
    ev.eq(got.lower(), scheme, 'challenge-scheme', header=t)
    ps = read(ev, rfc.pair_list, rest, 'challenge')
    ev.eq(dict(ps), d, 'challenge-text', header=t)
    ev.eq(len(ps), len(d), 'challenge-count', header=t)
    for p in rfc.split(rest):
        n, _, v = p.partition('=')
        if n in QUOTED:
            ev.ok(v[:1] == '"', 'challenge-unquoted', header=t, name=n)
    ev.hit('challenge')
    if src.bool():
        if 'stale' in d or k == 1 and src.bool(1, 3):
            d['stale'] = src.choice(('true', 'false', 'True', 'False',
                                     'TRUE', 'FALSE'))
            stale = d['stale'].lower() == 'true'
        t = case(src, scheme) + ' ' + join(src, ev, [
            n + '=' + spell(src, v) for n, v in d.items()])
    back = h.parse_www_authenticate_header(t)
    ev.eq(back.type, scheme, 'challenge-type', header=t)
    ev.eq({n: v for n, v in back.items() if not n.startswith('__')}, d,
          'challenge-parsed', header=t)
    ev.eq(back.realm, d.get('realm'), 'challenge-realm', header=t)
    if scheme == 'digest' and k == 1:
        ev.eq(list(back.qop), list(qop), 'challenge-qop', header=t)
        ev.eq(bool(back.stale), stale, 'challenge-stale', header=t)
        ev.eq(back.nonce, d['nonce'], 'challenge-nonce', header=t)
    ev.hit('challenge-parsed')
    # nothing but a scheme
    bare = case(src, scheme)
    back = h.parse_www_authenticate_header(bare)
    ev.eq((back.type, [n for n in back if not n.startswith('__')]),
          (scheme, []), 'challenge-bare', header=bare)
    ev.key(t)
    ev.case()


SCENARIOS = [
    Scenario('word', word, 5000),
    Scenario('lists', lists, 4000),
    Scenario('sets', sets, 2000),
    Scenario('dicts', dicts, 4000),
    Scenario('options', options, 4000),
    Scenario('header-options', header_options, 1000),
    Scenario('etags', etags, 2500),
    Scenario('single-etag', single_etag, 1500),
    Scenario('cache', cache, 2500),
    Scenario('accepts', accepts, 2500),
    Scenario('basic', basic, 1200),
    Scenario('digest', digest, 1500),
    Scenario('challenge', challenge, 1500),
]


def sweep(ev):
    """Every character, alone and inside a word, through every type."""
    h = http()
    n = 0
    for c in [chr(i) for i in range(256) if i not in (10, 13)] + \
            list(gen.UNI):
        for v in (c, 'a' + c, c + 'b', 'a' + c + 'b', c + c, '"' + c,
                  '\\' + c, c + '\\', c + '"'):
            ev.note(value=v)
            t = h.quote_header_value(v)
            ev.eq(rfc.word(t), v, 'word-text', header=t)
            ev.eq(h.unquote_header_value(t), v, 'word-round-trip', header=t)
            t = h.dump_header([v, 'z'])
            ev.eq(h.parse_list_header(t), [v, 'z'], 'list-parsed', header=t)
            t = h.dump_header({'k': v, 'z': None})
            ev.eq(h.parse_dict_header(t), {'k': v, 'z': None},
                  'dict-parsed', header=t)
            t = h.dump_options_header('x', {'k': v, 'z': 'y'})
            ev.eq(h.parse_options_header(t), ('x', {'k': v, 'z': 'y'}),
                  'options-parsed', header=t)
            if '"' not in v:
                t = h.ETags([v], [v + 'w']).to_header()
                e = h.parse_etags(t)
                ev.eq((set(e), e.as_set(True)), ({v}, {v, v + 'w'}),
                      'etags-set', header=t)
            n += 1
            ev.key('sweep', v)
    ev.hit('swept', n)
    ev.case(n)


DIRECTED = [('every-character', sweep)]
