"""Shared workload generators (all decisions go through a Source)."""
import string

from vf import literals

LIT = literals.load()
ASCII = string.ascii_letters + string.digits
TOKEN = "!#$%&'*+-.^_`|~" + ASCII
PRINTABLE = ''.join(chr(c) for c in range(32, 127))
UNI = u'\xe4\xf6\xfc\xdf\xe9\xff\u0130\u0131\u03a9\u0416\u4e2d\u2603\u20ac' \
    u'\ufb01\U0001f600\u0301\u2028\x85\xa0'
CTRL = '\x00\x01\x08\t\x0b\x0c\x1b\x1c\x1d\x1e\x7f'
SEPS = '()<>@,;:\\"/[]?={} \t'


def lit(src):
    """A literal of the code under test (new ones first)."""
    new = LIT['new_strings']
    if new and src.bool(2, 3):
        return src.choice(new)
    return src.choice(LIT['strings'])


def num(src, hi=1 << 12):
    """A natural number; biased to small ones and to the neighbourhood of
    numbers in the code."""
    k = src.draw(8)
    if k < 4:
        return src.int(0, min(hi, 8))
    if k == 4 or k == 5 and hi <= 1 << 12:
        return src.int(0, min(hi, 300))
    if k == 5:
        # any order of magnitude
        return src.int(0, min(hi, 1 << src.int(4, hi.bit_length())))
    new = LIT['new_ints']
    if new and src.bool(2, 3):
        v = src.choice(new)
    else:
        v = src.choice(LIT['ints'])
    v = max(0, v + src.int(-1, 1))
    return v if v <= hi else src.int(0, hi)


def length(src, typical=6, hi=200):
    k = src.draw(10)
    if k < 8:
        return src.int(0, typical)
    if k == 8:
        return src.int(0, min(hi, 70))
    return num(src, hi)


def text(src, alphabet=None, typical=6, hi=200, lo=0):
    """Text with a heavy tailed length."""
    if alphabet is None:
        alphabet = src.choice((
            'ab', ASCII, PRINTABLE, PRINTABLE + UNI, SEPS + 'ab' + UNI))
    n = max(lo, length(src, typical, hi))
    if n > 40:
        # long texts: few decisions
        unit = ''.join(src.choice(alphabet) for _ in range(src.int(1, 5)))
        return (unit * (n // len(unit) + 1))[:n]
    return ''.join(src.choice(alphabet) for _ in range(n))


def token(src, typical=5, hi=60, lo=1):
    """A header token."""
    if src.draw(6) == 5:
        s = ''.join(c for c in lit(src) if c in TOKEN)
        if s:
            return s
    return text(src, src.choice(('ab', ASCII, TOKEN)), typical, hi, lo)


def ident(src):
    """A short identifier, from few: collisions are wanted."""
    return src.choice(('a', 'b', 'c', 'foo', 'bar', 'x1', 'Name', 'id'))


def value(src, hi=200):
    """Any header-safe text (no line breaks)."""
    k = src.draw(8)
    if k == 7:
        s = lit(src)
        if src.bool():
            s = s + text(src, PRINTABLE, 3)
    elif k == 6:
        s = src.choice(('"', '\\', '\\"', '""', '\\\\', '\\\\"', '"a"', ' a ',
                        'a,b', 'a;b', 'a=b', ',', ';', '=', "'", 'a b', '%',
                        '%20', '\t', '', ' ', '"a', 'a"', 'a\\', '*', '**'))
        if src.bool():
            s = text(src, 'ab', 2) + s + text(src, 'ab', 2)
            if src.draw(4) == 3:
                # many of them
                s = ((s + src.choice(('', ';', ',', '=', ' ', 'a'))) *
                     src.int(2, 60))[:hi]
    else:
        s = text(src, typical=6, hi=hi)
    return s.replace('\r', '').replace('\n', '')


def latin1(src, hi=300):
    """A hostile header value as a WSGI server would hand it over."""
    pieces = src.int(0, 6)
    out = []
    for _ in range(pieces):
        k = src.draw(6)
        if k == 0:
            out.append(lit(src))
        elif k == 1:
            out.append(src.choice((
                '"', '\\', ',', ';', '=', ' ', '\t', '/', '*', '-', 'w/', 'W/',
                ':', '%', '%zz', '\x00', '\xff', '\xe4', '==', ';;', ',,',
                '"\\', '\\"', 'bytes=', 'q=', 'GMT', '[', ']', '@', '#', '?',
                '0', '-1', '99999999999999999999', '1.5', 'nan', 'inf',
                '\xb2', '\x1c', '\x85', '\xa0')))
        elif k == 2:
            out.append(text(src, PRINTABLE, 6, hi))
        elif k == 3:
            out.append(text(src, ''.join(chr(c) for c in range(256)
                                         if c not in (10, 13)), 6, hi))
        elif k == 4:
            out.append(str(num(src, 1 << 20)))
        else:
            out.append(token(src))
    s = ''.join(out)
    return ''.join(c for c in s if ord(c) < 256 and c not in '\r\n')


def as_wsgi(s, charset='utf-8'):
    return s.encode(charset, 'replace').decode('latin1')


def environ(path='/', query='', method='GET', headers=(), body=b'',
            script='', scheme='http', host='localhost', **extra):
    """A WSGI environ made by hand (not by the code under test)."""
    import io
    env = {
        'REQUEST_METHOD': method,
        'SCRIPT_NAME': as_wsgi(script),
        'PATH_INFO': as_wsgi(path),
        'QUERY_STRING': query,
        'SERVER_NAME': 'localhost',
        'SERVER_PORT': '80',
        'SERVER_PROTOCOL': 'HTTP/1.1',
        'HTTP_HOST': host,
        'CONTENT_TYPE': '',
        'CONTENT_LENGTH': str(len(body)),
        'wsgi.version': (1, 0),
        'wsgi.url_scheme': scheme,
        'wsgi.input': io.BytesIO(body),
        'wsgi.errors': io.StringIO(),
        'wsgi.multithread': False,
        'wsgi.multiprocess': False,
        'wsgi.run_once': False,
    }
    for k, v in headers:
        env['HTTP_' + k.upper().replace('-', '_')] = v
    env.update(extra)
    return env
