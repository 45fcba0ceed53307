"""Dates and byte ranges are exact."""
import time
import string
import datetime

from vf.engine import Scenario
from vf import gen, rfc

RULE = ('instants of the years 1000 to 9999 given in every accepted type are '
        'written and compared with independent calendar arithmetic, and the '
        'spellings of one instant are read; range headers are resolved '
        'against real byte strings and compared with slices; distinct = hash '
        'of instant or header and length')
ASSUMPTIONS = ['years 1000 to 9999', 'two digit years only for 1969 to 2068',
               'content ranges end inside their length']
REQUIRED = {'http-date': 3000, 'cookie-date': 1500, 'parsed-imf': 1500,
            'parsed-rfc850': 500, 'parsed-asctime': 800,
            'parsed-offset': 500, 'bad-date': 500, 'garbled-date': 1500,
            'range-satisfied': 2000, 'range-unsatisfied': 300,
            'range-malformed': 1000, 'range-many': 400, 'range-units': 150,
            'content-range': 1500, 'content-range-bad': 500, 'if-range': 500,
            'swept-ranges': 900, 'swept-days': 1000, 'now': 10}


def http():
    import verktyg.http
    return verktyg.http


def variants(src, t):
    """One instant in an accepted type."""
    dt = rfc.naive(t)
    k = src.draw(7)
    if k == 0:
        return 'datetime', dt
    if k == 1:
        return 'datetime-micro', dt.replace(
            microsecond=src.choice((1, 500000, 999999)))
    if k == 2:
        off = src.int(-14 * 60, 14 * 60)
        if not 60000 * 86400 > abs(t):
            off = 0
        try:
            aware = dt.replace(tzinfo=datetime.timezone.utc).astimezone(
                datetime.timezone(datetime.timedelta(minutes=off)))
        except OverflowError:
            return 'datetime', dt
        return 'datetime-aware', aware
    if k == 3:
        return 'int', t
    if k == 4:
        f = float(t)
        if t > 0 and src.bool():
            f += src.choice((0.25, 0.5, 0.75))
        return 'float', f
    if k == 5:
        return 'struct_time', time.gmtime(t)
    return 'timetuple', dt.utctimetuple()


def dates(src, ev):
    h = http()
    t = rfc.random_instant(src)
    kind, v = variants(src, t)
    ev.note(instant=t, type=kind, value=v)
    ev.eq(h.http_date(v), rfc.imf(t), 'http-date')
    ev.hit('http-date')
    if src.bool():
        ev.eq(h.cookie_date(v), rfc.cookie(t), 'cookie-date')
        ev.hit('cookie-date')
    want = rfc.naive(t)
    ev.eq(h.parse_date(h.http_date(v)), want, 'http-date-round-trip')
    ev.eq(h.parse_date(h.cookie_date(v)), want, 'cookie-date-round-trip')
    ev.key(kind, t)
    ev.case()


def spellings(src, ev):
    h = http()
    t = rfc.random_instant(src)
    want = rfc.naive(t)
    y = want.year
    forms = [('imf', rfc.imf(t)), ('asctime', rfc.asctime(t))]
    if 1969 <= y <= 2068:
        forms.append(('rfc850', rfc.rfc850(t)))
    off = src.int(-23 * 60, 23 * 60)
    if 1001 <= y <= 9998:
        s = rfc.imf(t + off * 60)
        a = abs(off)
        forms.append(('offset', s.replace('GMT', '%s%02d%02d' % (
            '-' if off < 0 else '+', a // 60, a % 60))))
    for kind, s in forms:
        if src.draw(4) == 3:
            s = src.choice((' ', '\t', '')) + s + src.choice((' ', '\t', ''))
        got = h.parse_date(s)
        ev.eq(got, want, 'parse-' + kind, text=s)
        ev.ok(got.tzinfo is None and got.microsecond == 0, 'date-type',
              text=s)
        ev.hit('parsed-' + kind)
    ev.key('spell', t)
    ev.case()


def bad_dates(src, ev):
    """Impossible calendar dates are refused, garbled ones never raise."""
    h = http()
    t = rfc.random_instant(src)
    y, m, d, H, M, S, w = rfc.fields(t)
    k = src.draw(5)
    if k == 0:
        d = src.choice((32, 40, 99))
    elif k == 1:
        m, d = src.choice(((2, 30), (2, 31), (4, 31), (6, 31), (9, 31),
                           (11, 31)))
    elif k == 2:
        H = src.int(24, 99)
    elif k == 3:
        M = src.int(60, 99)
    else:
        m, d, y = 2, 29, src.choice((1900, 2001, 2100, 2023, 2200, 1999))
    s = '%s, %02d %s %04d %02d:%02d:%02d GMT' % (
        rfc.DAYS[w], d, rfc.MONTHS[m - 1], y, H, M, S)
    ev.eq(h.parse_date(s), None, 'impossible-date', text=s)
    ev.hit('bad-date')
    for _ in range(3):
        s = src.choice((rfc.imf(t), rfc.asctime(t), rfc.cookie(t)))
        for _ in range(src.few(1, 3)):
            i = src.draw(len(s) + 1)
            j = i + src.choice((0, 0, 1, 2, 5))
            s = s[:i] + src.choice(('', '', gen.text(src), '9', '0000000',
                                    '-', '+9999', '+999999999999', ' ',
                                    '99999999999999999999', ':', ',')) + s[j:]
        ev.note(text=s)
        got = h.parse_date(s)
        ev.ok(got is None or isinstance(got, datetime.datetime),
              'garbled-date', observed=got)
        if got is not None:
            ev.hit('garbled-accepted')
        ev.hit('garbled-date')
    ev.key(s)
    ev.case()


# -- ranges ----------------------------------------------------------------
def spec(src, hi):
    k = src.draw(5)
    if k == 0:
        return ('suffix', 1 + gen.num(src, hi))
    a = gen.num(src, hi)
    if k == 1:
        return ('from', a)
    return ('slice', a, a + gen.num(src, hi))


def spell(s):
    if s[0] == 'suffix':
        return '-%d' % s[1]
    if s[0] == 'from':
        return '%d-' % s[1]
    return '%d-%d' % s[1:]


def select(s, data):
    if s[0] == 'suffix':
        return data[max(0, len(data) - s[1]):]
    if s[0] == 'from':
        return data[s[1]:]
    return data[s[1]:s[2] + 1]


def pair(s):
    if s[0] == 'suffix':
        return (-s[1], None)
    if s[0] == 'from':
        return (s[1], None)
    return (s[1], s[2] + 1)


DATA = bytes(i * 7 % 251 for i in range(5000))


def judge(ev, rng, s, n, text):
    """The selected bytes are the requested ones."""
    want = select(s, DATA[:n])
    got = rng.range_for_length(n)
    cr = rng.make_content_range(n)
    if not want:
        ev.eq(got, None, 'unsatisfiable-range', header=text, length=n)
        ev.eq(cr, None, 'unsatisfiable-content-range', header=text, length=n)
        ev.hit('range-unsatisfied')
        return
    ev.ok(got is not None, 'satisfiable-range-refused', header=text, length=n)
    start, stop = got
    ev.ok(0 <= start < stop <= n, 'range-outside', header=text, length=n,
          observed=got)
    ev.eq(DATA[start:stop], want, 'range-bytes', header=text, length=n,
          got=got)
    ev.eq((cr.units, cr.start, cr.stop, cr.length),
          ('bytes', start, stop, n), 'content-range', header=text)
    ev.eq(cr.to_header(), 'bytes %d-%d/%d' % (start, stop - 1, n),
          'content-range-text', header=text)
    ev.hit('range-satisfied')


def ranges(src, ev):
    h = http()
    n = min(5000, gen.num(src, 5000))
    s = spec(src, src.choice((10, n + 2, 5000)))
    units = src.choice(('bytes', 'bytes', 'bytes', 'Bytes', 'BYTES'))
    ws = src.choice(('', '', ' '))
    text = units + '=' + ws + spell(s)
    ev.note(header=text, length=n)
    rng = h.parse_range_header(text)
    ev.ok(rng is not None, 'range-refused')
    ev.eq((rng.units, list(rng.ranges)), ('bytes', [pair(s)]), 'range-parsed')
    ev.eq(rng.to_header(), 'bytes=' + spell(s), 'range-written')
    judge(ev, rng, s, n, text)
    ev.eq(rng.range_for_length(None), None, 'range-unknown-length')
    judge(ev, h.Range('bytes', [pair(s)]), s, n, 'object ' + text)
    from verktyg.requests import Request
    r = Request(gen.environ(headers=[('Range', text)])).range
    ev.ok(r is not None, 'request-range-refused')
    judge(ev, r, s, n, 'request ' + text)
    ev.key(text, n)
    ev.case()


def many(src, ev):
    """Several ranges, other units."""
    h = http()
    specs, pos = [], 0
    for _ in range(src.int(2, 6)):
        a = pos + gen.num(src, 40)
        b = a + gen.num(src, 40)
        specs.append(('slice', a, b))
        pos = b + 1
    if src.bool():
        specs[-1] = src.choice((('suffix', src.int(1, 90)),
                                ('from', pos + 1)))
    units = src.choice(('bytes', 'bytes', 'items', 'x'))
    text = units + '=' + ','.join(
        src.choice(('', ' ')) + spell(s) + src.choice(('', ' '))
        for s in specs)
    rng = h.parse_range_header(text)
    ev.note(header=text)
    ev.ok(rng is not None, 'range-refused')
    ev.eq((rng.units, list(rng.ranges)), (units, [pair(s) for s in specs]),
          'ranges-parsed')
    ev.eq(rng.to_header(), units + '=' + ','.join(map(spell, specs)),
          'ranges-written')
    ev.eq(rng.range_for_length(gen.num(src)), None, 'several-ranges-as-one')
    ev.hit('range-many')
    if units != 'bytes':
        rng = h.parse_range_header(units + '=' + spell(specs[0]))
        ev.eq(rng.units, units, 'units')
        ev.eq(rng.range_for_length(10000), None, 'other-units-as-bytes')
        ev.hit('range-units')
    # the wrong order: refused, or taken as it stands
    wrong = specs[::-1]
    got = h.parse_range_header('bytes=' + ','.join(map(spell, wrong)))
    ev.ok(got is None or list(got.ranges) == [pair(s) for s in wrong],
          'wrong-order')
    ev.key(text)
    ev.case()


def malformed(src, ev):
    h = http()
    a, b = gen.num(src, 50), gen.num(src, 50)
    k = src.draw(10)
    if k == 0:
        text = 'bytes=%d-%d' % (a + b + 1, a)
    elif k == 1:
        text = 'bytes=%d' % a
    elif k == 2:
        text = 'bytes %d-%d' % (a, a + b)
    elif k == 3:
        text = 'bytes=' + src.choice(('', '-', '--', '-0', '-00', '=', 'a-b',
                                      '--5', '-+5', '-_5', '- -5'))
    elif k == 4:
        bad = src.choice(('+%d', '%d_0', 'x%d', '0x%d', '%d.0', '%de1',
                          '\xb2%d', '\xbd%d', '%dL', '_%d', '%d\xa0x'))
        text = 'bytes=' + src.choice((
            bad % a + '-', bad % a + '-%d' % (a + 1000000),
            '0-' + bad % a, '-' + bad % (a + 1)))
    elif k == 5:
        text = 'bytes=%d-%d,%s' % (a, a + b, src.choice(
            ('x', '-', '1', '--1', 'a-b', '-0')))
    elif k == 6:
        text = 'bytes=%d-%d,%d-%d' % (a, a + b, a, a + b)
    elif k == 7:
        text = 'bytes=%d-%d-%d' % (a, a + b, a + b + 1)
    elif k == 8:
        text = src.choice(('', 'bytes', '=', '-', '5-6', 'bytes:1-2'))
        if text == '=':
            text = 'bytes='
    else:
        text = 'bytes=%s-' % src.choice(('-%d' % (a + 1), '9' * 5000 + 'x',
                                         '(%d)' % a, '"%d"' % a))
    ev.note(header=text)
    ev.eq(h.parse_range_header(text), None, 'malformed-range-accepted')
    from verktyg.requests import Request
    ev.eq(Request(gen.environ(headers=[('Range', text)])).range, None,
          'malformed-range-accepted-by-request')
    ev.hit('range-malformed')
    ev.key(text)
    ev.case()


def content_ranges(src, ev):
    h = http()
    units = src.choice(('bytes', 'bytes', 'items'))
    if src.draw(4) == 3:
        start = stop = None
        length = src.choice((None, gen.num(src, 1 << 40)))
        text = '%s */%s' % (units, '*' if length is None else length)
    else:
        start = gen.num(src, 1 << 40)
        stop = start + 1 + gen.num(src, 1 << 40)
        length = src.choice((None, stop, stop + gen.num(src, 1 << 40)))
        text = '%s %d-%d/%s' % (units, start, stop - 1,
                                '*' if length is None else length)
    ev.note(header=text)
    c = h.ContentRange(units, start, stop, length)
    want = (units, start, stop, length)
    ev.eq(c.to_header(), text, 'content-range-text')
    ev.eq(str(c), text, 'content-range-str')
    ev.ok(bool(c), 'content-range-bool')
    for c in (c, h.parse_content_range_header(text)):
        ev.ok(c is not None, 'content-range-refused')
        ev.eq((c.units, c.start, c.stop, c.length), want,
              'content-range-parsed')
    ev.ok(h.is_byte_range_valid(start, stop, length), 'range-validity')
    ev.hit('content-range')
    # edits
    log = []
    c = h.ContentRange(units, start, stop, length,
                       on_update=lambda x: log.append(x.to_header()))
    c.set(1, 3, 10)
    ev.eq(log, ['bytes 1-2/10'], 'content-range-update')
    c.unset()
    ev.ok(not c, 'content-range-unset')
    ev.eq(c.to_header(), '', 'content-range-unset-text')
    # refused
    k = src.draw(9)
    bad = ((5, 5, 10), (6, 5, 10), (-1, 5, 10), (10, 12, 10), (11, 12, 10),
           (None, 5, 10), (5, None, 10), (5, 4, None), (3, 3, None))[k]
    ev.ok(not h.is_byte_range_valid(*bad), 'range-validity', range=bad)
    ev.raises(ValueError, lambda: h.ContentRange('bytes', *bad),
              'bad-content-range-accepted', range=bad)
    ev.raises(ValueError, lambda: c.set(*bad), 'bad-content-range-set',
              range=bad)
    text = src.choice((
        '', 'bytes', 'bytes 1-2', 'bytes 1-2/', 'bytes 1/10', 'bytes -/10',
        'bytes 5-4/10', 'bytes 10-11/10', 'bytes a-b/10', 'bytes 1-2/x',
        'bytes -1-2/10', 'bytes 1--2/10', 'bytes +1-2/10', 'bytes 1_0-20/30',
        'bytes 1-2/-5', 'bytes 1-2/1_0', 'bytes 1-2/\xb2', 'bytes/1-2/10',
        'bytes */x', 'bytes **/5', 'bytes 1-2/%s' % ('9' * 5000)))
    ev.eq(h.parse_content_range_header(text), None,
          'malformed-content-range-accepted', text=text)
    ev.hit('content-range-bad')
    ev.eq(h.parse_content_range_header(None), None, 'none-content-range')
    ev.key(want, text)
    ev.case()


def if_ranges(src, ev):
    h = http()
    if src.bool():
        t = rfc.random_instant(src)
        for f in (h.parse_if_range_header(rfc.imf(t)),
                  h.IfRange(date=rfc.naive(t))):
            ev.eq((f.etag, f.date), (None, rfc.naive(t)), 'if-range-date')
            ev.eq(f.to_header(), rfc.imf(t), 'if-range-text')
        ev.key(t)
    else:
        tag = gen.text(src, string.ascii_lowercase + string.digits, 6, 60, 1)
        for f in (h.parse_if_range_header('"%s"' % tag), h.IfRange(etag=tag)):
            if f.date is None:
                ev.eq(f.etag, tag, 'if-range-etag')
                ev.eq(f.to_header(), '"%s"' % tag, 'if-range-text')
        ev.key(tag)
    f = h.parse_if_range_header(src.choice(('', None)))
    ev.eq((f.etag, f.date, f.to_header()), (None, None, ''), 'if-range-none')
    ev.hit('if-range')
    ev.case()


SCENARIOS = [
    Scenario('dates', dates, 4000),
    Scenario('spellings', spellings, 2500),
    Scenario('bad-dates', bad_dates, 1200),
    Scenario('ranges', ranges, 3000),
    Scenario('many', many, 1000),
    Scenario('malformed', malformed, 2000),
    Scenario('content-ranges', content_ranges, 2000),
    Scenario('if-ranges', if_ranges, 800),
]


def all_small_ranges(ev):
    h = http()
    n = 0
    specs = [('from', a) for a in range(11)] + \
        [('suffix', a) for a in range(1, 11)] + \
        [('slice', a, b) for a in range(10) for b in range(a, 11)]
    for s in specs:
        text = 'bytes=' + spell(s)
        rng = h.parse_range_header(text)
        ev.ok(rng is not None, 'range-refused', header=text)
        for length in list(range(0, 11)):
            judge(ev, rng, s, length, text)
            n += 1
    for a in range(-2, 12):
        for b in range(-2, 12):
            text = 'bytes=%d-%d' % (a, b)
            if a >= 0 and b >= a:
                continue
            ev.eq(h.parse_range_header(text), None,
                  'malformed-range-accepted', header=text)
            n += 1
    ev.hit('swept-ranges', n)
    ev.case(n)


def all_days(ev):
    """Every day of a few years, every month end of all years."""
    h = http()
    days = [rfc.days_from_civil(y, 1, 1) + i
            for y in (1000, 1900, 1969, 1970, 1999, 2000, 2024, 2038, 2100,
                      9999)
            for i in range(365)]
    days += [rfc.days_from_civil(y, m, 1) + o for y in range(1001, 9999, 17)
             for m in (1, 3) for o in (-1, 0)]
    for d in days:
        t = d * 86400 + d % 86400
        s = rfc.imf(t)
        ev.eq(h.http_date(rfc.naive(t)), s, 'http-date', instant=t)
        ev.eq(h.http_date(t), s, 'http-date', instant=t)
        ev.eq(h.parse_date(s), rfc.naive(t), 'parse-imf', text=s)
        ev.eq(h.parse_date(rfc.cookie(t)), rfc.naive(t), 'parse-cookie',
              text=s)
    ev.hit('swept-days', len(days))
    ev.case(len(days))


def current(ev):
    """Without an argument the current second is written."""
    h = http()
    for _ in range(10):
        a = int(time.time())
        s, c = h.http_date(), h.cookie_date()
        b = int(time.time())
        ev.ok(s in [rfc.imf(t) for t in range(a, b + 1)], 'now', text=s)
        ev.ok(c in [rfc.cookie(t) for t in range(a, b + 1)], 'now', text=c)
        ev.hit('now')


def local_zone(ev):
    """The local time zone of the machine has no influence."""
    import os
    h = http()
    old = os.environ.get('TZ')
    try:
        for tz in ('Asia/Tokyo-9', 'XST+11', 'EST5EDT', 'UTC0'):
            os.environ['TZ'] = tz
            time.tzset()
            for t in (0, 86399, 1500000000, 1400000000, 951782400, -86400):
                ev.eq(h.http_date(t), rfc.imf(t), 'zone-date', zone=tz)
                ev.eq(h.http_date(rfc.naive(t)), rfc.imf(t), 'zone-date',
                      zone=tz)
                ev.eq(h.http_date(time.gmtime(t)), rfc.imf(t), 'zone-date',
                      zone=tz)
                ev.eq(h.parse_date(rfc.imf(t)), rfc.naive(t), 'zone-parse',
                      zone=tz)
                ev.eq(h.parse_date(rfc.asctime(t)), rfc.naive(t),
                      'zone-parse', zone=tz)
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()


DIRECTED = [('all-small-ranges', all_small_ranges), ('all-days', all_days),
            ('current', current), ('local-zone', local_zone)]
