"""Shared data stays inside its directory and is served exactly."""
import os
import sys
import time
import warnings
import fnmatch
import shutil
import tempfile

from vf.engine import Scenario
from vf import gen, rfc
from vf.server import serve

RULE = ('generated directory trees in a scratch folder, surrounded by canary '
        'files, are exported and requested with ordinary, near-miss and '
        'hostile paths; the body, headers, opened files (sys.audit), open '
        'descriptors and the environ passed on are compared with a model of '
        'the exports; distinct = hash of exports, tree, path and validators')
ASSUMPTIONS = ['no symbolic links', 'requests for single file exports name '
               'exactly the export', 'paths with empty or dot segments: '
               'containment only', 'names that are valid UTF-8']
REQUIRED = {'served': 700, 'passed-on': 700, 'hostile': 700, 'dotdot': 300,
            'disallowed': 80, 'near-miss': 150, 'not-modified': 120,
            'conditional-full': 120, 'opened': 700, 'closed': 700,
            'stopped-early': 60, 'server-wrapper': 40, 'no-cache': 60,
            'changed-file': 40, 'package': 10, 'sibling': 40,
            'unicode-name': 40, 'post': 20, 'big-file': 10}

TYPES = {'txt': 'text/plain', 'html': 'text/html', 'css': 'text/css',
         'png': 'image/png', 'json': 'application/json', 'pdf':
         'application/pdf'}
NAMES = ['a.txt', 'b.html', 'style.css', 'x.png', 'data.json', 'README',
         '.hidden', 'secret.key', 'a.bak', '..foo', 'foo..', '...', 'sp ace',
         'per%41cent', 'back\\slash.txt', 'sub', 'dir', 'static', 'index',
         '\xe4\xf6\xfc.txt', '\u4e2d.html', 'semi;colon', "quo'te", 'a+b',
         'UPPER.TXT', 'a.txt.bak', '~', 'x.pdf', 'star*', '[a]', 'a.TXT',
         'null', 'con', '-', 'q?x', 'h#x']
RULES = ['*.key', '*.bak', '.*', 'secret*', 'README', '*.txt', '?.html',
         '[ab].*', '*', 'nothing', '*~', 'sub', '*.TXT']

_opened = []
_watch = [False]
_hooked = [False]


def hook():
    if _hooked[0]:
        return
    _hooked[0] = True
    import mimetypes
    mimetypes.init()

    def audit(event, args):
        if _watch[0] and event in ('open', 'os.open'):
            _opened.append(args[0])
    sys.addaudithook(audit)


class Tree(object):
    """root/export (exported), root/other (exported too, perhaps) and
    canaries beside them."""

    def __init__(self, src, ev):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='vf-c21-'))
        self.files = {}      # absolute path -> bytes
        self.src = src
        self.ev = ev
        self.n = 0

    def clean(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def add(self, rel, canary=False):
        src = self.src
        path = os.path.join(self.root, rel)
        if os.path.isdir(path) or path in self.files:
            return None
        try:
            os.makedirs(os.path.dirname(path), exist_ok=True)
        except (FileExistsError, NotADirectoryError):
            return None
        self.n += 1
        data = ('CANARY %d' % self.n).encode() if canary else (
            b'file %d\n' % self.n * src.choice((1, 1, 2, 0, 5)))
        if not canary and src.draw(40) == 39:
            data = (data or b'x') * (1 + src.int(60000, 90000) //
                                     len(data or b'x'))
            self.ev.hit('big-file')
        with open(path, 'wb') as f:
            f.write(data)
        self.files[path] = data
        t = src.int(10 ** 9, 17 * 10 ** 8)
        ns = t * 10 ** 9 + src.choice((0, 0, 1, 5 * 10 ** 8, 999000000))
        os.utime(path, ns=(ns, ns))
        return path


def segs(path):
    return [s for s in path.split('/') if s]


class Model(object):
    def __init__(self, tree, exports, disallow):
        self.tree = tree
        self.exports = exports        # [(prefix, absolute path)]
        self.disallow = disallow

    def allowed(self, path):
        base = path.rsplit('/', 1)[-1]
        return not any(fnmatch.fnmatchcase(base, r) for r in self.disallow)

    def resolve(self, segments):
        """The file for a clean list of segments, or None."""
        for prefix, target in self.exports:
            p = segs(prefix)
            if segments[:len(p)] != p:
                continue
            if target in self.tree.files:
                if segments == p:
                    path = target
                else:
                    continue
            else:
                path = '/'.join([target] + segments[len(p):])
                if path not in self.tree.files:
                    continue
            return path if self.allowed(path) else None
        return None

    def below_file_export(self, segments):
        return any(t in self.tree.files and len(segments) > len(segs(p)) and
                   segments[:len(segs(p))] == segs(p)
                   for p, t in self.exports)

    def inside(self, path):
        """Any file that may be given out at all."""
        if path not in self.tree.files or not self.allowed(path):
            return False
        return any(path == t or path.startswith(t + '/')
                   for _, t in self.exports)


def name(src):
    if src.draw(8) == 7:
        s = gen.text(src, gen.ASCII + ' ._-%&\xe4\u4e2d', 8, 80, lo=1)
        return s if s not in ('.', '..') else 'x'
    return src.choice(NAMES)


def build(src, ev):
    tree = Tree(src, ev)
    try:
        return (tree,) + fill(src, tree)
    except BaseException:
        tree.clean()
        raise


def fill(src, tree):
    for canary in ('outside.txt', 'export-evil/a.txt', 'exporta.txt',
                   'a.txt', 'sub/a.txt', 'other-evil/b.html'):
        tree.add(canary, canary=True)
    dirs = ['export']
    if src.bool():
        dirs.append('other')
    if src.bool(1, 4):
        dirs.append('export/sub')
    rels = []
    for d in dirs:
        os.makedirs(os.path.join(tree.root, d), exist_ok=True)
    for d in dirs:
        for _ in range(src.int(1, 5)):
            parts = [name(src) for _ in range(src.weighted(
                [(5, 1), (3, 2), (1, 3)]))]
            rel = '/'.join([d] + parts)
            if len(max(parts, key=len)) > 80:
                continue
            p = tree.add(rel)
            if p:
                rels.append(p)
    exports = []
    prefixes = src.shuffle(['/static', '/shared/x', '/', '/static/sub',
                            '/st', '/\xe4', '/static/', '/a.txt'])
    for d in dirs:
        exports.append((prefixes.pop(), os.path.join(tree.root, d)))
    if src.bool(1, 3) and rels:
        exports.append((prefixes.pop().rstrip('/') or '/one',
                        src.choice(rels)))
    if src.bool(1, 5):
        exports.append((prefixes.pop(), os.path.join(tree.root, 'missing')))
    if src.bool(1, 4):
        # an export below another one, and a file of the same name
        outer, inner = src.choice((('/', '/a.txt'), ('/static',
                                                     '/static/a.txt'),
                                   ('/st', '/st/a.txt')))
        d = src.choice(('export', 'missing', 'export/sub'))
        p = tree.add('outer/a.txt')
        rels.append(p)
        exports = [(a, b) for a, b in exports
                   if a.rstrip('/') not in (outer.rstrip('/'), inner)]
        exports += [(inner, os.path.join(tree.root, d)),
                    (outer, os.path.join(tree.root, 'outer'))]
    # two spellings of one prefix would be one export
    exports = list({p.rstrip('/'): (p, t) for p, t in
                    src.shuffle(exports)}.values())
    disallow = None
    if src.bool(1, 2):
        disallow = src.sublist(RULES, 1, 8)
        if src.bool(1, 4):
            # a long list: each of the rules counts
            for i in range(src.int(5, 40)):
                disallow.insert(src.draw(len(disallow) + 1), 'no%d*' % i)
    return exports, disallow, rels


HOSTILE = ['..', '..', '..', '.', '', '', '...', '%2e%2e', '..%2f', '.. ',
           ' ..', '..\\', '\\..', '..\x00', '\x00', '..;', '~', '~root',
           '\u2025', '\uff0e\uff0e', '..\n', 'C:', 'file:', '../', '\\\\',
           '..%00', '%00', '..\xff', '....', '..//', 'sub/..', './..',
           '..../', '.../', '.\\..\\', '..\t']


def requests_for(src, ev, tree, exports, rels):
    """(kind, path) to ask for."""
    k = src.draw(12)
    prefix, target = src.choice(exports)
    base = '/' + '/'.join(segs(prefix))
    if k < 4 and rels:
        # an existing file below some export, by its own name
        for prefix, target in src.shuffle(exports):
            mine = [r for r in rels if r.startswith(target + '/')]
            if mine:
                f = src.choice(mine)
                return 'file', '/' + '/'.join(
                    segs(prefix) + f[len(target) + 1:].split('/'))
        return 'export', base
    if k == 4:
        return 'export', base
    if k == 5:
        rest = '/'.join(name(src) for _ in range(src.int(1, 3)))
        return 'random', '/' + '/'.join(segs(prefix) + [rest])
    if k == 6:
        # almost an export or a file
        f = src.choice(rels) if rels else '/x'
        p = '/' + '/'.join(segs(prefix) + [f.rsplit('/', 1)[-1]])
        return 'near-miss', src.choice((
            p + 'x', p[:-1], p.upper(), p.replace('/', '', 1), base + 'x' +
            '/' + p.rsplit('/', 1)[-1], base[:-1] + '/' + f.rsplit('/')[-1],
            p + '/x', '/x' + p, p + '\x00', p + '%00', p + ' ', p + '.',
            base + p))
    if k == 7:
        # siblings of the exported directory
        return 'sibling', src.choice((
            base + '-evil/a.txt', base + '/../export-evil/a.txt',
            base + '/..-evil/a.txt', base + 'a.txt',
            base + '/../outside.txt', base + '/../a.txt', '/../a.txt',
            '/' + '../' * src.int(1, 9) + tree.root[1:] + '/outside.txt',
            base + '/' + '../' * src.int(1, 9) + 'etc/passwd',
            base + '/' + tree.root + '/outside.txt',
            base + tree.root + '/outside.txt',
            base + '//' + tree.root + '/outside.txt'))
    # hostile segments mixed with real ones
    parts = segs(prefix) if src.bool(3, 4) else []
    for _ in range(src.int(1, 6)):
        j = src.draw(6)
        if j < 3:
            parts.append(src.choice(HOSTILE))
        elif j == 3 and rels:
            parts.extend(src.choice(rels)[len(tree.root) + 1:]
                         .split('/')[src.draw(2):])
        elif j == 4:
            parts.append(src.choice(('outside.txt', 'export-evil', 'a.txt',
                                     'export', 'sub', 'etc', 'passwd')))
        else:
            parts.append(name(src))
    p = '/'.join(parts)
    if src.bool(7, 8):
        p = '/' + p
    return 'hostile', p


def open_fds(root):
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if t.startswith(root + '/'):
            out.append(t)
    return out


class ServerWrapper(object):
    made = 0

    def __init__(self, file, block=8192):
        ServerWrapper.made += 1
        self.file = file

    def __iter__(self):
        return iter(lambda: self.file.read(4096), b'')

    def close(self):
        self.file.close()


def one_request(src, ev, mw, model, tree, path, opts, headers=(),
                method='GET'):
    """Serve one request; returns (result, file or None)."""
    env = gen.environ(path, 'q=%2e', method, headers, host='localhost')
    if src.bool(1, 10):
        env['wsgi.file_wrapper'] = ServerWrapper
        ServerWrapper.made = 0
    before = {k: v for k, v in env.items()}
    calls = opts['calls']
    del calls[:]
    del _opened[:]
    stop = None
    if src.bool(1, 8):
        stop = src.draw(2)
    _watch[0] = True
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        try:
            res = serve(mw, env, ev, stop=stop)
        finally:
            _watch[0] = False
    leaks = [str(w.message) for w in seen
             if issubclass(w.category, ResourceWarning) and
             tree.root in str(w.message)]
    ev.eq(leaks, [], 'file-not-closed', status=res.status)
    opened = []
    for p in _opened:
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if isinstance(p, str):
            p = os.path.realpath(p)
            if p.endswith(('.py', '.pyc', '.so')) or \
                    p.startswith((sys.prefix, sys.base_prefix, '/proc',
                                  os.path.dirname(os.__file__))) and \
                    not p.startswith(tree.root):
                continue
            opened.append(p)
    ev.note(path=path, opened=opened, status=res.status,
            headers=res.headers, body=res.body[:80])
    ev.eq(open_fds(tree.root), [], 'file-left-open', stopped=stop)
    if stop is not None:
        ev.hit('stopped-early')
    for p in opened:
        ev.ok(model.inside(p), 'opened-outside', file=p)
        ev.hit('opened')
    if calls:
        ev.eq(len(calls), 1, 'application-called-twice')
        ev.ok(calls[0] == before, 'environ-changed', got={
            k: v for k, v in calls[0].items() if before.get(k) != v})
        ev.eq((res.status, res.headers), ('404 NOT FOUND', [
            ('Content-Type', 'text/x-app')]), 'passed-on-response')
        if stop is None:
            ev.eq(res.body, b'from the application', 'passed-on-body')
        ev.hit('passed-on')
        return res, None
    # served: find out which file this is
    ev.ok(res.status.upper() in ('200 OK', '304 NOT MODIFIED'), 'status')
    ev.ok(len(opened) >= 1, 'nothing-opened')
    served = opened[-1]
    if 'wsgi.file_wrapper' in env and res.code == 200:
        ev.eq(ServerWrapper.made, 1, 'server-wrapper-not-used')
        ev.hit('server-wrapper')
    if res.code == 304:
        ev.eq(res.body, b'', 'body-on-304')
        ev.ok(not res.get('Content-Length') or
              res.one('Content-Length') == '0', 'length-on-304')
        return res, served
    data = tree.files[served]
    if stop is None:
        if method == 'GET':
            ev.eq(res.body, data, 'wrong-bytes', file=served)
    else:
        ev.ok(data.startswith(res.body), 'wrong-bytes', file=served)
    ev.hit('closed')
    check_headers(ev, res, served, data, opts)
    ev.hit('served')
    return res, served


def check_headers(ev, res, served, data, opts):
    ev.eq(res.one('Content-Length'), str(len(data)), 'content-length')
    base = served.rsplit('/', 1)[-1]
    ext = base.rsplit('.', 1)[-1].lower() if '.' in base.lstrip('.') else ''
    want = TYPES.get(ext)
    if want is None and ext == '' and '.' not in \
            base:
        want = opts['fallback']
    if want is not None:
        ev.eq(res.one('Content-Type'), want, 'content-type', file=base)
    mtime = int(os.stat(served).st_mtime_ns // 10 ** 9)
    ev.eq(res.one('Last-Modified'), rfc.imf(mtime), 'last-modified')
    now = int(time.time())
    ev.ok(res.one('Date') in [rfc.imf(now + d) for d in range(-30, 4)],
          'date', got=res.one('Date'), now=rfc.imf(now))
    cc = {x.strip() for x in (res.one('Cache-Control') or '').split(',')}
    if opts['cache']:
        ev.eq(cc, {'public', 'max-age=%d' % opts['timeout']},
              'cache-control')
        ev.ok(res.one('Expires') in [rfc.imf(now + opts['timeout'] + d)
                                     for d in range(-30, 4)], 'expires',
              got=res.one('Expires'))
        tag = res.one('Etag')
        ev.ok(tag and len(tag) > 2 and tag[0] == tag[-1] == '"', 'etag',
              got=tag)
    else:
        ev.ok(not any(x.startswith('max-age') for x in cc), 'cache-control',
              got=cc)
        ev.eq((res.get('Etag'), res.get('Expires')), ([], []),
              'caching-headers-without-cache')


def make(src, tree, exports, disallow):
    from verktyg.wsgi import SharedDataMiddleware
    calls = []
    opts = {'cache': True, 'timeout': 60 * 60 * 12, 'fallback': 'text/plain',
            'calls': calls}
    kw = {}
    if src.bool(1, 4):
        opts['cache'] = kw['cache'] = src.bool(1, 3)
    if src.bool(1, 4):
        opts['timeout'] = kw['cache_timeout'] = src.choice(
            (0, 1, 60, 86400, gen.num(src, 1 << 16)))
    if src.bool(1, 4):
        opts['fallback'] = kw['fallback_mimetype'] = 'application/x-any'
    if disallow is not None:
        kw['disallow'] = disallow
        if len(disallow) == 1 and src.bool():
            kw['disallow'] = disallow[0]

    def app(environ, start_response):
        calls.append(dict(environ))
        start_response('404 NOT FOUND', [('Content-Type', 'text/x-app')])
        return [b'from the ', b'application']
    mw = SharedDataMiddleware(app, dict(exports), **kw)
    return mw, opts


def serving(src, ev):
    hook()
    tree, exports, disallow, rels = build(src, ev)
    try:
        mw, opts = make(src, tree, exports, disallow)
        model = Model(tree, exports, disallow or [])
        shown = [(p, t[len(tree.root):]) for p, t in exports]
        for _ in range(src.int(2, 8)):
            kind, path = requests_for(src, ev, tree, exports, rels)
            ev.note(exports=shown, disallow=disallow, kind=kind,
                    files=[f[len(tree.root):] for f in tree.files][6:],
                    asked=path)
            res, served = one_request(src, ev, mw, model, tree, path, opts)
            wire = gen.as_wsgi(path).encode('latin1').decode(
                'utf-8', 'replace')
            parts = wire.split('/')
            clean = wire.startswith('/') and '.' not in parts and \
                '..' not in parts and (parts[1:] == [''] or
                                       '' not in parts[1:])
            if clean and not model.below_file_export(segs(wire)):
                want = model.resolve(segs(wire))
                ev.eq(served and served[len(tree.root):],
                      want and want[len(tree.root):], 'wrong-file')
            elif served:
                ev.ok(model.inside(served), 'served-outside', file=served)
            if kind == 'hostile':
                ev.hit('hostile')
            elif kind in ('near-miss', 'sibling'):
                ev.hit(kind)
            if '..' in parts:
                ev.hit('dotdot')
            if served and not served.isascii():
                ev.hit('unicode-name')
            if not served and clean and any(
                    f for f in tree.files if f.endswith('/' + parts[-1]) and
                    not model.allowed(f)):
                ev.hit('disallowed')
            if not opts['cache'] and served:
                ev.hit('no-cache')
            ev.ok(b'CANARY' not in res.body, 'canary-given-out')
            ev.key(kind, path.replace(tree.root, 'ROOT'), shown, disallow,
                   res.status)
            ev.case()
    finally:
        tree.clean()


def conditional(src, ev):
    """Validators, and files that change between requests."""
    hook()
    tree = Tree(src, ev)
    try:
        f = tree.add('export/' + src.choice(NAMES[:6]))
        exports = [('/s', os.path.join(tree.root, 'export'))]
        mw, opts = make(src, tree, exports, None)
        model = Model(tree, exports, [])
        path = '/s/' + f.rsplit('/', 1)[-1]
        res, _ = one_request(src, ev, mw, model, tree, path, opts)
        ev.eq(res.code, 200, 'first-request')
        ev.case()
        for _ in range(src.int(1, 5)):
            mtime = int(os.stat(f).st_mtime_ns // 10 ** 9)
            tag = res.one('Etag')
            change = src.draw(4)
            if change == 3:
                # new content of another length and time
                was = tree.files[f]
                data = was + b'more'
                if src.bool() and tree.files[f]:
                    data = bytes(x ^ 1 for x in tree.files[f])
                    ev.hit('same-length-change')
                with open(f, 'wb') as out:
                    out.write(data)
                tree.files[f] = data
                if len(data) != len(was):
                    # restored with the time it had, for instance
                    mtime += src.choice((0, 0, -5))
                mtime += src.choice((1, 2, 3600, 86400)) \
                    if len(data) == len(was) or src.bool() else 0
                os.utime(f, (mtime, mtime))
                ev.hit('changed-file')
            headers = []
            inm = src.draw(6)
            match = None
            other = '"other-%d"' % src.draw(9)
            if tag:
                if inm == 1:
                    headers.append(('If-None-Match', tag))
                    match = change != 3
                elif inm == 2:
                    headers.append(('If-None-Match', other))
                    match = False
                elif inm == 3:
                    headers.append(('If-None-Match', '%s, %s' % (other, tag)))
                    match = change != 3
                elif inm == 4:
                    headers.append(('If-None-Match', '*'))
                    match = True
            if src.bool():
                d = src.choice((-86400, -1, 0, 0, 1, 86400))
                headers.append(('If-Modified-Since', rfc.imf(mtime + d)))
                if match is None:
                    match = d >= 0
            elif src.bool(1, 6):
                headers.append(('If-Modified-Since', src.choice((
                    'garbage', '', '0', 'Thu, 99 Foo 2020'))))
            ev.note(headers_sent=headers, mtime=mtime, changed=change == 3)
            method = 'GET'
            if src.bool(1, 8):
                method = 'POST'
                ev.hit('post')
            new, _ = one_request(src, ev, mw, model, tree, path, opts,
                                 headers, method)
            if method == 'POST':
                if not match:
                    ev.eq(new.code, 200, '304-without-current-copy')
            elif opts['cache']:
                ev.eq(new.code, 304 if match else 200, 'conditional')
                ev.hit('not-modified' if match else 'conditional-full')
                if new.code == 304:
                    ev.ok(tag == new.one('Etag') or change == 3,
                          'etag-on-304', got=new.one('Etag'))
            else:
                ev.ok(new.code == 200 or match, 'conditional')
            if new.code == 200 and opts['cache']:
                ev.eq(new.one('Etag') == tag, change != 3, 'etag-change',
                      old=tag, new=new.one('Etag'))
                res = new
            if change == 3 and new.code == 304:
                break
            ev.key('cond', headers and [h for h, _ in headers], match,
                   change, opts['cache'], new.code)
            ev.case()
    finally:
        tree.clean()


def package(ev):
    """Package data, from the file system and from a zip archive."""
    import io
    import warnings
    import zipfile
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            import pkg_resources    # noqa
    except ImportError:
        ev.hit('package', 99)
        return
    from verktyg.wsgi import SharedDataMiddleware
    root = tempfile.mkdtemp(prefix='vf-c21p-')
    try:
        files = {'data/a.txt': b'alpha', 'data/sub/b.html': b'beta',
                 'data/empty.css': b'', 'outside.txt': b'CANARY'}
        os.mkdir(root + '/lib')
        pkg = root + '/lib/vf_c21_pkg'
        os.makedirs(pkg + '/data/sub')
        open(pkg + '/__init__.py', 'w').close()
        for i, (k, v) in enumerate(files.items()):
            with open(pkg + '/' + k, 'wb') as f:
                f.write(v)
            os.utime(pkg + '/' + k, (1e9 + i, 1e9 + i))
        with zipfile.ZipFile(root + '/z.zip', 'w') as z:
            z.writestr('vf_c21_zip/__init__.py', '')
            for k, v in files.items():
                z.writestr('vf_c21_zip/' + k, v)
        sys.path[:0] = [root + '/lib', root + '/z.zip']
        for mod in ('vf_c21_pkg', 'vf_c21_zip'):
            calls = []

            def app(environ, start_response):
                calls.append(1)
                start_response('404 NOT FOUND', [])
                return [b'app']
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                mw = SharedDataMiddleware(app, {'/p': (mod, 'data')},
                                          disallow='*.html')
                for path, want in (
                        ('/p/a.txt', b'alpha'), ('/p/empty.css', b''),
                        ('/p/sub/b.html', None), ('/p/sub', None),
                        ('/p', None), ('/p/', None), ('/p/nope', None),
                        ('/p/../outside.txt', None), ('/p/sub/', None),
                        ('/p/../__init__.py', None),
                        ('/p/./../outside.txt', None), ('/q/a.txt', None)):
                    del calls[:]
                    ev.note(package=mod, path=path)
                    res = serve(mw, gen.environ(path), ev)
                    if want is None:
                        ev.eq(len(calls), 1, 'package-not-passed-on',
                              status=res.status, body=res.body)
                        ev.eq(res.body, b'app', 'package-not-passed-on')
                    else:
                        ev.eq((res.code, res.body, calls), (200, want, []),
                              'package-file')
                        ev.eq(res.one('Content-Length'), str(len(want)),
                              'package-length')
                        ev.eq(res.status, '200 OK', 'package-status')
                        if mod == 'vf_c21_pkg':
                            ev.eq(res.one('Last-Modified'), rfc.imf(int(
                                os.stat(pkg + '/data' + path[2:]).st_mtime)),
                                'package-last-modified')
                    ev.hit('package')
    finally:
        sys.path[:] = [p for p in sys.path if not p.startswith(root)]
        for m in ('vf_c21_pkg', 'vf_c21_zip'):
            sys.modules.pop(m, None)
        shutil.rmtree(root, ignore_errors=True)


def bad_exports(ev):
    from verktyg.wsgi import SharedDataMiddleware
    for v in (None, 5, ['x'], {}):
        ev.raises(TypeError, lambda: SharedDataMiddleware(
            None, {'/': v}), 'export-accepted', value=v)


DIRECTED = [('package', package), ('bad-exports', bad_exports)]
SCENARIOS = [
    Scenario('serving', serving, 500),
    Scenario('conditional', conditional, 200),
]
