"""Second readers of header text, written from the RFCs (nothing here is
taken from the code under test)."""
import datetime

TOKEN = set("!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyz"
            "ABCDEFGHIJKLMNOPQRSTUVWXYZ")
DAYS = ('Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun')
LONG_DAYS = ('Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday',
             'Saturday', 'Sunday')
MONTHS = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep',
          'Oct', 'Nov', 'Dec')


class Bad(Exception):
    pass


def is_token(s):
    return bool(s) and all(c in TOKEN for c in s)


def quoted(s, i):
    """Reads the quoted-string at s[i]; (value, next index)."""
    if s[i:i + 1] != '"':
        raise Bad('no quote')
    i += 1
    out = []
    while i < len(s):
        c = s[i]
        if c == '\\':
            if i + 1 >= len(s):
                raise Bad('dangling escape')
            out.append(s[i + 1])
            i += 2
        elif c == '"':
            return ''.join(out), i + 1
        else:
            out.append(c)
            i += 1
    raise Bad('unterminated')


def split(s, sep=','):
    """Pieces between separators that are not inside quoted-strings."""
    out, cur, i = [], [], 0
    while i < len(s):
        c = s[i]
        if c == '"':
            _, j = quoted(s, i)
            cur.append(s[i:j])
            i = j
        elif c == sep:
            out.append(''.join(cur).strip(' \t'))
            cur = []
            i += 1
        else:
            cur.append(c)
            i += 1
    out.append(''.join(cur).strip(' \t'))
    return out


def word(s):
    """token or quoted-string -> value"""
    if s.startswith('"'):
        v, j = quoted(s, 0)
        if j != len(s):
            raise Bad('text after quoted-string: %r' % s)
        return v
    if not is_token(s):
        raise Bad('not a token: %r' % s)
    return s


def word_list(s):
    """#( token / quoted-string )"""
    return [word(p) for p in split(s) if p]


def pair(p):
    """name [ = value ]"""
    name, eq, v = p.partition('=')
    name = name.strip(' \t')
    if not is_token(name):
        raise Bad('name is no token: %r' % p)
    if not eq:
        return name, None
    return name, word(v.strip(' \t'))


def pair_list(s):
    return [pair(p) for p in split(s) if p]


def options(s):
    """main-value *( ; name = value )"""
    ps = split(s, ';')
    return ps[0], [pair(p) for p in ps[1:] if p]


# -- dates ---------------------------------------------------------------
def days_from_civil(y, m, d):
    """Days since 1970-01-01 (Gregorian)."""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def civil_from_days(z):
    z += 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + (3 if mp < 10 else -9)
    return y + (m <= 2), m, d


def fields(t):
    """Seconds since the epoch -> (y, m, d, H, M, S, weekday)."""
    day, s = divmod(t, 86400)
    y, m, d = civil_from_days(day)
    return y, m, d, s // 3600, s // 60 % 60, s % 60, (day + 3) % 7


def seconds(y, m, d, H=0, M=0, S=0):
    return days_from_civil(y, m, d) * 86400 + H * 3600 + M * 60 + S


def imf(t):
    """RFC 1123 date."""
    y, m, d, H, M, S, w = fields(t)
    return '%s, %02d %s %04d %02d:%02d:%02d GMT' % (
        DAYS[w], d, MONTHS[m - 1], y, H, M, S)


def cookie(t):
    y, m, d, H, M, S, w = fields(t)
    return '%s, %02d-%s-%04d %02d:%02d:%02d GMT' % (
        DAYS[w], d, MONTHS[m - 1], y, H, M, S)


def rfc850(t):
    y, m, d, H, M, S, w = fields(t)
    return '%s, %02d-%s-%02d %02d:%02d:%02d GMT' % (
        LONG_DAYS[w], d, MONTHS[m - 1], y % 100, H, M, S)


def asctime(t):
    y, m, d, H, M, S, w = fields(t)
    return '%s %s %2d %02d:%02d:%02d %04d' % (
        DAYS[w], MONTHS[m - 1], d, H, M, S, y)


def naive(t):
    """The same instant as naive UTC datetime, by arithmetic of our own."""
    y, m, d, H, M, S, w = fields(t)
    return datetime.datetime(y, m, d, H, M, S)


def random_instant(src):
    """Seconds since the epoch, years 1000 to 9999."""
    k = src.draw(6)
    if k == 0:
        return src.int(0, 2000000000)
    if k == 1:
        y = src.choice((1000, 1582, 1899, 1900, 1901, 1904, 1968, 1969, 1970,
                        1999, 2000, 2001, 2004, 2037, 2038, 2039, 2100, 2400,
                        9999))
    else:
        y = src.int(1970, 2068) if k < 4 else src.int(1000, 9999)
    m = src.int(1, 12)
    last = (31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31,
            30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1]
    d = src.choice((1, last, src.int(1, last)))
    H = src.choice((0, 23, src.int(0, 23)))
    M = src.choice((0, 59, src.int(0, 59)))
    S = src.choice((0, 59, src.int(0, 59)))
    return seconds(y, m, d, H, M, S)
