"""Inputs for request traces: heads, query strings, bodies, fragmentations, call sequences."""
import itertools, base64

def S(b, cuts=None, fail=False, io=False, once=False):
    """A source; b: bytes (or latin-1 text)."""
    if isinstance(b, bytes):
        b = b.decode('latin-1')
    d = {'b': '=' + b, 'fail': bool(fail)}
    if cuts: d['cuts'] = cuts
    if io: d['io'] = True
    if once: d['once'] = True
    return d

CFG = dict(mhs=16, fum=100000, dum=1000000, duf=1000, cs='latin1', mode='conv', chunk=0)
def cfg(**k):
    return dict(CFG, **k)

def case(streams, ops, cfgs=None, init=None):
    if isinstance(streams, dict):
        streams = [streams]
    cfgs = cfgs or [CFG]
    return dict(kind='req', cfgs=cfgs, init=init or [1] * len(cfgs), streams=streams,
                ops=[dict({'r': 1}, **(o if isinstance(o, dict) else {'op': o})) for o in ops])

def head(method='GET', target='/', proto='HTTP/1.1', headers=(('Host', 'h'),)):
    return '%s %s %s\r\n' % (method, target, proto) + ''.join('%s:%s%s\r\n' % (h[0], h[2] if len(h) > 2 else ' ', h[1]) for h in headers) + '\r\n'

CUT_POOL = [[1], [2], [3], [5], [7], [16], [17], [64], [1, 2, 3], [10, 1], [4096]]
MHS_POOL = [1, 2, 3, 4, 5, 7, 8, 16, 17, 63, 64, 1000, 100000]

def rcuts(rng, n):
    r = rng.random()
    if r < .3: return rng.choice(CUT_POOL)
    if r < .5: return [n or 1]
    if r < .75:
        k = rng.randint(1, max(1, n - 1)); return [k, max(1, n - k)]
    return [rng.randint(rng.choice([0, 1, 1]), rng.choice([2, 5, 30, 200])) for _ in range(rng.randint(1, 8))]
def rsrc(rng, b):
    if rng.random() < .15: return S(b, io=True)
    return S(b, rcuts(rng, len(b)))
def rmhs(rng, ctx):
    if ctx.h['new_nums'] and rng.random() < .3:
        n = rng.choice(ctx.h['new_nums'])
        return max(1, min(100000, n + rng.randint(-1, 1)))
    return rng.choice(MHS_POOL)

METHODS = ['GET', 'POST', 'PUT', 'HEAD', 'OPTIONS', 'DELETE', 'get', 'M-SEARCH', 'X', '', 'PATCH', 'CONNECT', 'POSTS', '\xe9']
PROTOS = ['HTTP/1.1', 'HTTP/1.0', 'HTTP/2', 'http/1.1', '', 'X']
SCHEMES = ['http', 'https', 'HTTP', 'HTTPS', 'ftp', 'HttpS', 'ws', 'a+b-c.d', 'mailto', 'sip', 'shttp', 'imap', 'httpx', 'http+unix', 'https1', 'xhttp', 'xhttps', 'htt', 'https-', 'http.s', 'h', 'wss', 'file']
HOSTS = ['example.com', 'EXAMPLE.com', 'h', '127.0.0.1', '[::1]', '[2001:db8::1]', '[::ffff:1.2.3.4]', 'a.b-c.d', 'host.', 'h..', '.', '-', 'xn--a.b',
         'a_b', 'h h', 'user@host', '', '[::1', '::1', 'host/', 'ho\xe9st', '[]', '[:]', '[::g]', '[1]', '[1:]x', 'a]', 'h,h', 'a,b', "h'", 'h%41', '1', '0.0', 'h\n', 'a\nb',
         '[1111:2222:3333:4444:5555:6666:7777:8888]', '[2001:0db8:85a3:0000:0000:8a2e:0370:7334]', '[0000:0000:0000:0000:0000:ffff:255.255.255.255]', '[fe80::1%25eth0]', '[::1.2]', '[' + 'a:' * 40 + ']',
         'a.' * 130 + 'b', '1.2.3.4.5', '255.255.255.255', 'A' * 64 + '.com', 'xn--80ak6aa92e.com', 'a..b', '.a', 'a-.b', '_x.y', '1a', 'localhost', 'x.local']
PORTS = ['', ':80', ':443', ':8080', ':0', ':65535', ':65536', ':99999', ':000080', ':', ':x', ':8 0', ':-1', ':80:80', ':1' * 3, ':+80', ':80\n']
PATHS = ['/', '', '/a', '/a/b/c', '/a;p=1', '/a;p/b;q', '/a%20b', '/%e2%82%ac', '*', '/a//b', '//', '/.', '/../x', '/a:b', 'a', 'a/b', '/~u', "/!$&'()*+,=@", '/%', '/%zz', '/a[b]', '/x\\y', '/"<>^`{|}',
         '/index.html', '/a:80', 'x:y', '1:2', ':', '/A', '/' + 'long' * 30]
QUERIES = ['', '?', '?a=1', '?a=1&b=2', '?a=1;b=2', '?a', '?=', '?a=&b', '?a=1#frag', '?x=%e2%82%ac', '?q=a+b', '??', '?a?b', '?a=1&a=2', '?a=/b/c', '?http://x/y', '#f', '#f?x', '?a=[1]', '?a:b@c', '?%', '?a=<b>|^`{}"\\', '?~', '?a=%2', '?a=1?b=2#c?d']
def target(rng):
    r = rng.random()
    p, q = rng.choice(PATHS), rng.choice(QUERIES)
    if r < .5: return p + q
    if r < .85: return rng.choice(SCHEMES) + '://' + rng.choice(HOSTS + ['example.com'] * 8).replace(' ', '') + rng.choice(PORTS + [''] * 8).replace(' ', '') + (p if p[:1] in ('/', '') else '/' + p) + q
    if r < .93: return '//' + rng.choice(HOSTS).replace(' ', '') + rng.choice(PORTS).replace(' ', '') + (p if p[:1] in ('/', '') else '/' + p) + q
    return rng.choice(['host:443', 'http:', 'http:/x', 'https:x?a=1', 'http:///x', ':80', 'a:b:c', 'HTTP://', 'http://?a', 'http://#', 'x-y://h', '1x://h/', 'http//h', 'http://h;p/x;y', 'sip://h/a;b', 'foo://h/a;b?c', 'foo:a;b', '//[::1', '//]', 'http://[]/'])
NAMES = ['X-A', 'Accept', 'Cookie', 'Set-Cookie', 'User-Agent', 'content-type', 'CONTENT-TYPE', 'host', 'HOST', 'X', 'x-a', 'Via', 'X_A', 'X A', '', ' X', 'X ', '\tX', 'a-very-long-name-' * 3, 'Content-Language', 'Content-MD5', 'X-Requested-With', 'Hos', 'Hostx', 'Transfer-Encoding', 'Connection', 'If-None-Match', 'n\xe9', 'Date', 'Referer']
VALUES = ['', 'v', 'a b', '  padded  ', '\ttab\t', 'a:b:c', ':', '::', 'x;y=z', 'a,b', '"quoted"', "it's", '\xe9\xff\x80', 'caf\xc3\xa9', 'v' * 200, '\x0b\x0c', '\xa0nbsp\xa0', '\x1fx\x1f', '\x85', 'line\ncontinued', 'cr\rinside', '\r', '\n', 'a=1; b=2', '0', 'XMLHttpRequest', 'xmlhttprequest', 'keep-alive', '  ', '\\', '%41', '\x00\x01']
CTYPES = ['text/plain', 'Text/Plain', 'application/json', 'text/html; charset=utf-8', 'text/html; charset="UTF-8"', 'text/plain; charset=iso-8859-1', 'text/plain;charset=us-ascii; x=y', 'text/plain; charset=x-bogus', 'text/plain; charset=hex', 'text/plain; charset=', 'TEXT/PLAIN; CHARSET=UTF-8', 'text/plain; x="a;b"; charset=utf8', '', ';', '; charset=utf-8', 'image/png', 'a; b', 'text/plain; charset = latin-1 ', 'multipart/mixed; boundary=x', 'x/y; a="b\\"c"; charset=utf-8', 'application/octet-stream', 'text/plain; charset=ascii; charset=utf-8', "text/plain; charset*=utf-8''utf-8", 'text/plain; p=\xe9\xe8', 'text/plain; charset=\xe9']
def headers(rng, ctx, nmax=6, host=True, ct=True):
    pool = NAMES + (ctx.h['new_strs'] or [])
    vpool = VALUES + (ctx.h['new_strs'] or []) + ctx.h['strs'][:0]
    hs = []
    for _ in range(rng.randint(0, nmax)):
        n = rng.choice(pool) if rng.random() < .8 or not hs else rng.choice(hs)[0]
        if '\r\n' in n or ':' in n or n == 'Host': n = 'X-B'
        v = rng.choice(vpool)
        hs.append((n, v, rng.choice([' ', '', '  ', '\t', ' \t'])))
    if ct and rng.random() < .5: hs.append(('Content-Type', rng.choice(CTYPES)))
    if host:
        for _ in range(rng.choice([1, 1, 1, 1, 2, 3])):
            hs.append(('Host', rng.choice(HOSTS) + rng.choice(PORTS + [''] * 8), rng.choice([' ', '', '  '])))
    rng.shuffle(hs)
    return hs

OPS_H = [dict(op='head', uri=True)]

# ---------------------------------------------------------------- heads
def lengths(ctx, lo, hi, extra=()):
    out = set(extra)
    for n in ctx.h['new_nums']:
        out |= {n - 1, n, n + 1}
    return sorted(x for x in out if lo <= x <= hi)

def c01(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    # every two-piece cut and every small read size of a fixed head
    h1 = head('POST', '/p?q=1', 'HTTP/1.1', [('Host', 'h:1'), ('A', ' x '), ('A', 'y'), ('B', '')])
    for k in range(1, len(h1)):
        out.append(case(S(h1, [k, 1000]), OPS_H, [cfg(mhs=1 + k % 9)]))
    for m in range(1, len(h1) + 3):
        out.append(case(S(h1 + 'body', [1 + m % 5]), OPS_H, [cfg(mhs=m)]))
    # many fields; long values around literal sizes
    for n in [1, 2, 50, 120] + lengths(ctx, 1, 3000)[:20]:
        hs = [('Host', 'h')] + [('N%d' % (i % (n // 2 + 1)), 'v%d' % i) for i in range(n)]
        out.append(case(rsrc(rng, head(headers=hs)), OPS_H, [cfg(mhs=rmhs(rng, ctx))]))
    for n in lengths(ctx, 1, 9000, [255, 256, 1023, 1024, 1025, 4096]):
        t = '/' + 'x' * n
        out.append(case(rsrc(rng, head('GET', t, headers=[('Host', 'h'), ('V', 'w' * n), ('Y' * min(n, 2000), 'z')])), OPS_H, [cfg(mhs=rmhs(rng, ctx))]))
    n = 3000 if big else 520
    while len(out) < n:
        hs = headers(rng, ctx)
        b = head(rng.choice(METHODS), target(rng) or '/', rng.choice(PROTOS), hs)
        if rng.random() < .4: b += rng.choice(['x', 'body\r\n\r\nmore', '\r\n', '\n'])
        out.append(case(rsrc(rng, b), OPS_H, [cfg(mhs=rmhs(rng, ctx), cs=rng.choice(['latin1', 'latin1', 'utf8', 'ascii']))]))
    return out

BODIES = ['', 'x', 'hello', '\r\n', '\r\n\r\n', '\n', '\r', 'a\r\n\r\nb\r\n\r\n', '\n\nline1\nline2', 'line\r\nline\r\n', '\x00\xff\x80', 'a' * 100, 'no newline at end\nlast', '\r\n\r', '\n\r\n', 'GET / HTTP/1.1\r\nHost: x\r\n\r\n', '=&;%', '{"a": 1}']
def body_ops(rng, n):
    seqs = [['head', 'body', 'body'], ['body', 'body'], ['head', {'op': 'read', 'n': -1}, {'op': 'read', 'n': -1}],
            ['head', 'lines'], ['head', 'readlines'], ['head', 'xreadlines'], ['head', 'readline', 'readline', 'readline', {'op': 'read', 'n': -1}],
            ['head', {'op': 'read', 'n': rng.randint(0, 4)}, 'readline', {'op': 'read', 'n': rng.randint(1, n + 2)}, 'lines'],
            ['head'] + [{'op': 'readline', 'n': rng.choice([0, 1, 2, 3, 5, n, n + 3])} for _ in range(rng.randint(1, 4))] + [rng.choice(['body', 'xreadlines', 'readline'])],
            ['head', {'op': 'read', 'n': rng.randint(1, n + 2)}, 'body'], ['head', 'readline', 'body', 'body'],
            ['head'] + [{'op': 'read', 'n': rng.randint(1, 3)} for _ in range(8)] + [{'op': 'read', 'n': -1}],
            ['body', {'op': 'read', 'n': -1}], ['head', 'pbody', 'body', 'body'], ['parse', 'body'], ['head', 'readline', 'pbody', 'body'], ['head', 'body', 'pbody', 'body'],
            ['head', 'lines', 'readline', 'body']]
    return [dict(o) if isinstance(o, dict) else {'op': o} for o in rng.choice(seqs)]
def c02(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    h = head('POST', '/', headers=[('Host', 'h'), ('Content-Type', 'text/plain')])
    for bi, b in enumerate(['', 'ab\r\n\r\ncd\nef', '\r\n\r\n\n', '\n\r\nx']):
        for k in range(max(1, len(h) - 6), len(h) + len(b) + 1):       # cuts around the blank line and in the body
            out.append(case(S(h + b, [k, 1 + k % 3, 50]), body_ops(rng, len(b)), [cfg(mhs=1 + (k * 7 + bi) % 20)]))
    for m in range(1, len(h) + 8):                                      # all read sizes
        out.append(case(S(h + 'ab\r\n\r\nc\nd', [1000]), body_ops(rng, 10), [cfg(mhs=m)]))
    for n in lengths(ctx, 0, 140000, [65535, 65536, 65537, 131072] if not big else [4095, 4096, 65535, 65536, 65537, 131071, 131072, 131073])[:24]:
        b = (bytes(range(256)) * (n // 256 + 1))[:n].decode('latin-1')
        out.append(case(S(h + b, rng.choice([[len(h) + n], [n or 1], [4096], [65536]])),
                        [['body', 'body'], ['head', {'op': 'read', 'n': max(n, 1)}, {'op': 'read', 'n': -1}], ['head', 'body', 'pbody']][n % 3] if n < 70000 else ['head', 'body'], [cfg(mhs=rmhs(rng, ctx))]))
    for n in [65536, 70000] + ([8192, 131072] if big else []):      # long lines
        for b in ('a' * n + '\nb\n' + 'c' * 5, 'x\n' + 'a' * (n - 1) + '\n'):
            for ops in (['head', 'lines'], ['head', 'readlines'], ['head', {'op': 'readline', 'n': 66000}, 'xreadlines'], ['head', 'readline', 'readline', 'body']):
                out.append(case(S(h + b, rng.choice([[len(h) + n], [4096], [65536]])), ops, [cfg(mhs=rng.choice([1000, 100000]))]))
    # other content is text in the charset in use
    for b in ['', 'abc', '\xc3\xa9', 'a\xe9b', '\xef\xbb\xbfx', '\xff', 'x\x80y\n', '\xe2\x82\xac\r\n', '\x00', 'caf\xe9 ol\xe9', '\xf0\x9f\x98\x80']:
        for ct in ['text/plain', 'text/plain; charset=utf-8', 'text/html; charset=us-ascii', 'application/json; charset=ISO-8859-1', None]:
            hb = head('POST', '/', headers=[('Host', 'h')] + ([('Content-Type', ct)] if ct else []))
            out.append(case(rsrc(rng, hb + b), rng.choice([['parse', 'body', 'body'], ['head', 'pbody', 'body'], ['body', 'pbody', 'body']]), [cfg(cs=rng.choice(['utf8', 'latin1', 'ascii']), mhs=rmhs(rng, ctx))]))
    n = 3000 if big else 580
    while len(out) < n:
        b = rng.choice(BODIES) if rng.random() < .6 else ''.join(rng.choice('ab\r\n\r\n\x00\xe9') for _ in range(rng.randint(0, 60)))
        ct = rng.choice([[], [('Content-Type', 'text/plain')], [('Content-Type', 'application/octet-stream'), ('Content-Length', str(len(b)))], [('Content-Length', rng.choice(['0', '3', 'x']))]])
        hb = head(rng.choice(['GET', 'POST', 'HEAD']), '/', headers=[('Host', 'h')] + ct)
        out.append(case(rsrc(rng, hb + b), body_ops(rng, len(b)), [cfg(mhs=rmhs(rng, ctx))]))
    return out

def c03(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    toks = ['GET', ' ', '/', 'HTTP/1.1', '\r\n', 'Host:h', 'X', ':', '\r', '\n']
    if big:
        tups = [''.join(t) for n in range(0, 6) for t in itertools.product(toks, repeat=n)]
        rng.shuffle(tups); tups = tups[:3000]
    else:
        tups = [''.join(t) for n in range(0, 3) for t in itertools.product(toks, repeat=n)]
        tups += [''.join(rng.choice(toks) for _ in range(rng.randint(3, 9))) for _ in range(60)]
    for t in tups:
        out.append(case(S(t + rng.choice(['', '\r\n\r\n', '\r\n', '\n\n']), rcuts(rng, 5)), OPS_H, [cfg(mhs=rng.choice([1, 4, 16]))]))
    good = lambda: head(rng.choice(METHODS), target(rng), rng.choice(PROTOS), headers(rng, ctx, 4))
    def mutate(h):
        r = rng.randint(0, 15)
        lines = h.split('\r\n')
        if r == 0: return h[:rng.randint(0, len(h) - 1)]
        if r == 1: lines[0] = lines[0].replace(' ', rng.choice(['  ', '\t', '', ' x ']), rng.randint(1, 2))
        if r == 2: lines[0] = lines[0] + rng.choice([' ', ' x', ' a b'])
        if r == 3: lines[0] = ' ' + lines[0]
        if r == 4 and len(lines) > 3:
            i = rng.randint(1, len(lines) - 3); lines[i] = lines[i].replace(':', rng.choice(['', ';', '=']))
        if r == 5: lines = [lines[0], '', '']
        if r == 6: lines = [l for l in lines if not l.startswith('Host')]
        if r == 7: lines[0] = 'GET ' + rng.choice(['http://[::1/x', 'http://::1]/', '//[x', '/\xe9', 'http://\xe9/', '/ok?\xe9=1', '//]x[/', 'http://[a]b]/']) + ' HTTP/1.1'
        if r == 8: lines.insert(rng.randint(1, len(lines) - 1), rng.choice(['nocolon', ' ', '\t', 'x', ' folded', '\x00', 'Host']))
        if r == 9: return h.replace('\r\n', '\n')
        if r == 10: return h.replace('\r\n', '\r')
        if r == 11: return '\r\n' + h
        if r == 12: lines[0] = rng.choice(['', ' ', '  ', 'GET', 'GET /', 'GET  /', '   ', 'a b c d'])
        if r == 13: lines = [l for l in lines if not l.startswith('Host')] + []; lines.insert(1, rng.choice(['host: h', 'HOST: h', 'Host : h', 'Hostx: h', ':h', 'X: Host: h']))
        if r == 14: lines.insert(1, ':novalue')
        return '\r\n'.join(lines)
    n = len(out) + (2500 if big else 330)
    while len(out) < n:
        h = good()
        if rng.random() < .85: h = mutate(h)
        cf = cfg(mhs=rmhs(rng, ctx), cs=rng.choice(['latin1', 'utf8', 'ascii']))
        if rng.random() < .1: h = h.replace('\r\n\r\n', '\r\nContent-Type: ' + rng.choice(CTYPES) + '\r\n\r\n')
        out.append(case(rsrc(rng, h + rng.choice(['', 'tail'])), OPS_H if rng.random() < .8 else ['parse'] if rng.random() < .5 else ['body'], [cf]))
    return out

def c04(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    pairs = [(h, p) for h in HOSTS for p in PORTS]
    if not big: rng.shuffle(pairs); pairs = pairs[:210]
    hosts = [h + p for h, p in pairs] + [s for s in ctx.h['new_strs']] + [s + '.example.com' for s in ctx.h['new_strs']]
    for h in hosts:
        out.append(case(S(head('GET', rng.choice(['/', '/a?b', 'x', '*', '/c;d']), headers=[('Host', h)])), OPS_H))
    for h in hosts[:(len(hosts) if big else 130)]:
        out.append(case(S(head('GET', rng.choice(SCHEMES) + '://' + h.replace(' ', '') + rng.choice(PATHS[:8] + ['?x=1']), headers=rng.choice([[('Host', 'other:99')], [('A', 'b')]]))), OPS_H))
    for n in lengths(ctx, 1, 3000, [1, 63, 64, 253, 254, 255, 256]):
        out.append(case(S(head('GET', '/', headers=[('Host', 'h' * n + rng.choice(['', ':80', '.']))])), OPS_H))
        out.append(case(S(head('GET', '/', headers=[('Host', 'h:' + '1' * n)])), OPS_H))
    for s in ('http', 'https', 'HTTPS', 'ws'):              # a scheme and the port of another
        for p in (':80', ':443', ':0', ':8443'):
            out.append(case(S(head('GET', s + '://' + rng.choice(['h', '[::1]', 'a.b.']) + p + rng.choice(['', '/', '/x?y']), headers=[('A', 'b')])), OPS_H))
    n = len(out) + (1500 if big else 220)
    while len(out) < n:
        hs = headers(rng, ctx, 2)
        if rng.random() < .2: hs = [x for x in hs if x[0] != 'Host']
        while rng.random() < .3: hs.append(('X-Requested-With', rng.choice(['XMLHttpRequest', 'xmlhttprequest', 'XMLHttpRequest2', ' XMLHttpRequest ', ''])))
        out.append(case(rsrc(rng, head('GET', target(rng), headers=hs)), OPS_H))
    return out
