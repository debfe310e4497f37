"""Inputs for request traces: parameters, multipart bodies, call histories, failing sources."""
import itertools, base64, urllib.parse
from greq import *

URLENC = 'application/x-www-form-urlencoded'
def post(body, ct=URLENC, extra=(), target='/', method='POST'):
    hs = [('Host', 'h')] + ([('Content-Type', ct)] if ct is not None else []) + list(extra)
    return head(method, target, headers=hs) + body

# ---------------------------------------------------------------- parameters
QTOK = ['a', 'b', 'aa', '=', '&', ';', '+', '%', '%20', '%2B', '%26', '%3D', '%3b', '%25', '%41', '%4', '%zz', '%e9', '%C3%A9', '%E2%82%AC', '%F0%9F%98%80', '%00', '%0d%0a', '%80', '%ff', '%C3%A8', 'x=1', 'x=2', 'y=', '=z', '&&', '1', '.', '~', '-', '_', '*', "'", '"', '<', '%7E', '%2f', '/', '?', ':', '@', '!', '$', ',', '(', ')']
BLANKS = [' ', '\r\n', '\n', '\t', '\x0b', '\x0c', '\x1c', '  ', '\x00']
NONASCII = ['\xe9', '\xc3\xa9', '\xe2\x82\xac', '\xff', '\xc3\xa9=\xc3\xa8']
def plainly_invalid(b):
    """Valid UTF-8 but for stray continuation bytes or bytes that never occur: decoders differ on cut-off sequences."""
    i = 0
    while True:
        try:
            b[i:].decode('utf-8'); return True
        except UnicodeDecodeError as e:
            if not (0x80 <= b[i + e.start] <= 0xbf or b[i + e.start] >= 0xfe): return False
            i += e.start + 1
def query(rng, ctx, body=False):
    while True:
        q = query1(rng, ctx, body)
        if plainly_invalid(urllib.parse.unquote_to_bytes(q.encode('latin-1'))): return q
def query1(rng, ctx, body=False):
    r = rng.random()
    if r < .5:
        toks = QTOK + (NONASCII if body and rng.random() < .3 else []) + (BLANKS if body and rng.random() < .4 else []) + ctx.h['new_strs']
        q = ''.join(rng.choice(toks) for _ in range(rng.randint(0, 12)))
    else:
        f = []
        names = ['a', 'b', 'a', 'na+me', 'c%20d', '', '%C3%A9', 'A'] + ctx.h['new_strs'][:4]
        for _ in range(rng.randint(0, 6)):
            n, v = rng.choice(names), ''.join(rng.choice(QTOK[:1] + QTOK[6:]) for _ in range(rng.randint(0, 4)))
            f.append(n + rng.choice(['=', '=', '=', '', '==']) + v)
        q = ''.join(x + rng.choice(['&', '&', ';', '&&']) for x in f)
        if rng.random() < .7: q = q[:-1]
        if body and rng.random() < .25: q = rng.choice(['', '', ' ', '\n']) + q + rng.choice(BLANKS)
    return q if body else q.replace('#', '').replace(' ', '')
def params_case(rng, q, inbody, cs, declared, cf, ops=None):
    ct = {'utf8': 'utf-8', 'latin1': 'ISO-8859-1', 'ascii': 'us-ascii'}
    suffix = '; charset=' + ct[declared] if declared else ''
    if inbody:
        return case(rsrc(rng, post(q, URLENC + suffix)), ops or ['parse'], [cf])
    q = q.replace('\xe9', '').encode('ascii', 'ignore').decode().replace('#', '')
    return case(rsrc(rng, head('GET', '/p?' + q, headers=[('Host', 'h')] + ([('Content-Type', 'text/plain' + suffix)] if suffix else []))), ops or ['head'], [cf])
def c05(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    small = [''.join(t) for n in range(0, 4 if big else 3) for t in itertools.product(['a', '=', '&', ';', '%41', '+', '%'], repeat=n)]
    for q in small:
        out.append(params_case(rng, q, len(out) % 2 == 0, 'utf8', None, cfg(cs='utf8')))
    for n in lengths(ctx, 1, 9000, [255, 256, 1024, 4096]):
        out.append(params_case(rng, 'a' * n + '=' + 'b' * n + '&c=' + '%41' * (n // 4), True, 'utf8', None, cfg(cs='utf8', duf=100000)))
        m = min(n, 1500)
        out.append(params_case(rng, '&'.join('k%d=%d' % (i % 7, i) for i in range(m)), True, 'utf8', None, cfg(cs='utf8', duf=-1)))
    n = len(out) + (2500 if big else 460)
    while len(out) < n:
        cs = rng.choice(['utf8', 'utf8', 'latin1', 'ascii'])
        dc = rng.choice([None, None, 'utf8', 'latin1', 'ascii'])
        b = rng.random() < .55
        out.append(params_case(rng, query(rng, ctx, b), b, cs, dc, cfg(cs=cs, duf=rng.choice([-1, 1000]))))
    return out
def c06(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    lims = [0, 1, 2, 3, 5, 10] + ([50, 100] if big else []) + lengths(ctx, 1, 300)[:8]
    for lim in lims:
        for n in sorted({0, 1, max(0, lim - 1), lim, lim + 1, lim + 2, 2 * lim + 1}):
            for form in ('k%d=%d', 'k=%d%d', '', '=', 'x', 'k%d=%d;'):
                fields = [(form % (i, i) if '%d' in form else form) for i in range(n)]
                q = rng.choice(['&', ';', '&']).join(fields)
                for inbody in (True, False):
                    if rng.random() < (.9 if big else .55):
                        out.append(params_case(rng, q, inbody, 'utf8', None, cfg(cs='utf8', duf=rng.choice([lim] * 5 + [-1])),
                                               None if not inbody else rng.choice([['parse'], ['head', 'pbody'], ['head', 'body', 'pbody'], ['head', 'pbody', 'pbody']])))
        for n in sorted({1, max(0, lim - 1), lim, lim + 1, lim + 2}):
            for nf in (0, 1, lim + 2):
                parts = [fpart('f%d' % (i % 3), 'v%d' % i) for i in range(n)] + [upart('u', 'n.txt', 'data%d' % i) for i in range(nf)] + [spart('junk') for _ in range(rng.randint(0, 2))]
                rng.shuffle(parts)
                out.append(mcase(rng, mbody(parts), cf=cfg(duf=rng.choice([lim] * 5 + [-1]), mode=rng.choice(['conv', 'temp']))))
    rng.shuffle(out)
    return out[:(6000 if big else 420)]
def c07(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    sizes = [0, 1, 2, 3, 10, 50, 100] + lengths(ctx, 1, 70000)[:10] + [65535, 65536, 65537] + ([131072, 131073, 4096, 1023, 1024, 1025] if big else [])
    for n in sizes:
        for d in ((-1, 0, 1, 2) if n < 1000 or big else (-1, 0, 1)):
            lim = max(0, n + d)
            for ct in [URLENC, 'text/plain', None] if n < 1000 else [rng.choice(['text/plain', None])]:
                b = ('a' * n) if ct != URLENC else ('k=' + 'v' * n)[:n]
                ops = rng.choice([['parse'], ['body'], ['head', 'body', 'body'], ['head', 'pbody', 'pbody'], ['body', 'pbody'], ['head', 'body', 'pbody']])
                out.append(case(rsrc(rng, post(b, ct)) if n < 5000 else S(post(b, ct), rng.choice([[70000], [65536], [4096], [1000, 1]])), ops, [cfg(dum=rng.choice([lim] * 7 + [-1]), mhs=rmhs(rng, ctx))]))
    # multipart: the sum over the fields
    for lim in [5, 10, 37, 100] + lengths(ctx, 5, 5000)[:6]:
        for d in (-2, -1, 0, 1, 2):
            for rep in range(4 if big else 2):
                total, parts, left, cs = 0, [], max(0, lim + d), rng.choice(['latin1', 'utf8'])
                k = rng.randint(1, 4)
                while left >= 3 and k > 0:
                    nl = rng.randint(1, min(3, left - 2))
                    dl = left - 2 - nl if k == 1 else rng.randint(0, left - 2 - nl)
                    enc = rng.random() < .2 and dl % 4 == 0
                    parts.append(fpart('n' * nl if rng.random() < .7 or nl < 2 else ('\xe9' if cs == 'latin1' else '\xc3\xa9') + 'n' * (nl - (1 if cs == 'latin1' else 2)), 'QUJD' * (dl // 4) if enc else 'd' * dl, te='base64' if enc else None))
                    left -= 2 + nl + dl
                    k -= 1
                if rng.random() < .6:
                    parts.insert(rng.randint(0, len(parts)), upart('u', 'f.bin', 'x' * rng.choice([0, 5, lim, 3 * lim])))
                out.append(mcase(rng, mbody(parts), cf=cfg(dum=rng.choice([lim] * 7 + [-1]), cs=cs, mode=rng.choice(['conv', 'temp']), fum=rng.choice([0, 10, 100000]))))
    rng.shuffle(out)
    out = out[:(4000 if big else 330)]
    for lim in (8, 16, 40):                     # base64 text counts as sent, white space included
        for d in (-1, 0, 1):
            for ws in (' ', '\r\n', '\t'):
                t = ws * rng.randint(0, 2) + 'QUJD' + ws * rng.randint(0, 3)
                n = lim + d - 6
                body = (t + ' ' * 40)[:max(len(t), n - 0)] if rng.random() < .5 else (ws * 40)[:max(0, n - 4)] + 'QUJD'
                out.append(mcase(rng, mbody([fpart('a', body, te='base64'), fpart('b', 'x')] if len(body) < lim else [fpart('a', body, te='base64')]), cf=cfg(dum=max(0, lim + rng.choice([0, 3])))))
    return out

# ---------------------------------------------------------------- multipart
def fpart(name, data, te=None, ct=None, extra=(), q='"'):
    return part([('Content-Disposition', 'form-data; name=%s%s%s' % (q, name, q))] + ([('Content-Type', ct)] if ct is not None else []) +
                ([('Content-Transfer-Encoding', te)] if te is not None else []) + list(extra), data)
def upart(name, fname, data, te=None, ct='application/octet-stream', extra=(), raw=None):
    return part([('Content-Disposition', raw if raw is not None else 'form-data; name="%s"; filename="%s"' % (name, fname))] +
                ([('Content-Type', ct)] if ct is not None else []) + ([('Content-Transfer-Encoding', te)] if te is not None else []) + list(extra), data)
def part(hs, data):
    return ''.join('%s: %s\r\n' % h for h in hs) + '\r\n' + data
def spart(data, kind=0):
    return ['Content-Disposition: form-data\r\n\r\n', 'Content-Disposition: form-data; filename="x"\r\n\r\n', 'X-Other: y\r\n\r\n', '\r\n\r\n', 'Content-Disposition: form-data; name="s"; filename="a/"\r\n\r\n', 'Content-Disposition: form-data; name="s"; filename="c:\\\\"\r\n\r\n'][kind % 6] + data
def mbody(parts, b='BB', preamble='', end='--\r\n', nl='\r\n'):
    if not parts:
        return preamble + '--' + b + end
    return preamble + '--' + b + '\r\n' + ('\r\n--' + b + '\r\n').join(parts) + nl + '--' + b + end
def mcase(rng, body, b='BB', cf=None, ops=None, cl=None, ct=None, src=None):
    hd = post('', ct if ct is not None else 'multipart/form-data; boundary=' + b, [('Content-Length', str(len(body)) if cl is None else cl)])
    return case(src(hd + body) if src else rsrc(rng, hd + body), ops or ['parse', 'close'], [cf or cfg(mhs=rng.choice(MHS_POOL))])

DATA = ['', 'x', 'value', '\r\n', 'a\r\nb', '\n', '\r', 'ends\r\n', 'ends\n', 'ends\r', '\r\nstarts', '--', '--B', '--BA', '-', '\r\n--', '\r\n--B', '\r\n-', '--B\r\n', 'B', 'BB', '\x00\xff\x80\x01', 'caf\xc3\xa9', '\r\n\r\n', 'k: v\r\n\r\nz', 'Content-Disposition: form-data; name="z"\r\n\r\nq', 'a' * 40, '\r' * 7, '\n' * 7, '\r\n' * 5, '-' * 9, '&=;', '%41+']
PNAMES = ['a', 'b', 'a', 'name', 'na me', 'n"q', 'caf\xc3\xa9', ' padded ', 'x[]', '0', 'a;b', "it's", 'a";b', 'q"; filename="evil', '"', 'q"', '"q', '""', "'q'", 'a\\\\', '*', 'name*', '=', 'A', '[]', '\x85x']
FNAMES = ['f.txt', ' ', '\t ', '   x',  'g', 'x.tar.gz', 'na me.txt', '.hidden', 'a/b.txt', 'C:\\\\dir\\\\f.doc', 'caf\xc3\xa9.png', '&amp;.txt', 'x;y.txt', '../../etc/passwd', 'f.', ' s.txt ', 'qu\\"ote.txt', 'se\\";x=\\"mi.txt', 'bs\\\\']
PTYPES = ['text/plain', 'image/png', 'text/plain; charset=utf-8', 'TEXT/Html; charset="x y"; q=1', '', 'application/octet-stream', 'a/b; c=d; e="f;g"']
def rdata(rng, ctx, b='BB'):
    r = rng.random()
    if r < .6: d = rng.choice(DATA)
    elif r < .9: d = ''.join(rng.choice(['\r', '\n', '-', 'B', 'a', '\r\n', '--', '\x00', 'A']) for _ in range(rng.randint(0, 30)))
    else: d = ''.join(chr(rng.randint(0, 255)) for _ in range(rng.randint(0, 300)))
    while '--' + b in d: d = d.replace('--' + b, '-+' + b)
    return d
def rb64(rng, data):
    e = base64.b64encode(data.encode('latin-1')).decode()
    k = rng.randint(0, 4)
    if k == 0: return e
    if k == 1: return '\r\n'.join(e[i:i + 7] for i in range(0, len(e), 7))
    if k == 2: return ''.join(c + (rng.choice([' ', '\t', '\r\n', '\n', '  ']) if rng.random() < .2 else '') for c in e)
    if k == 3: return '\r\n'.join(e[i:i + 76] for i in range(0, len(e), 76)) + '\r\n'
    return ' ' + e + '  '
def rpart(rng, ctx, b='BB', b64=.12, skip=.1):
    r = rng.random()
    if r < skip: return spart(rdata(rng, ctx, b), rng.randint(0, 5))
    te = rng.choice([None] * 6 + ['8bit', 'binary', '7bit', ' base64x'])
    d = rdata(rng, ctx, b)
    if rng.random() < b64:
        te = rng.choice(['base64', 'base64', 'BASE64', ' base64 ']); d = rb64(rng, d)
    ct = rng.choice([None] * 3 + PTYPES)
    extra = [] if rng.random() < .8 else [rng.choice([('X-Custom', 'v; name="evil"'), ('Content-Length', str(rng.choice([0, 5, 'x']))), ('Content-Language', 'en')])]
    if rng.random() < .5:
        nm = rng.choice(PNAMES + ctx.h['new_strs'])
        return fpart(nm.replace('"', '\\"'), d, te, ct, extra)
    return upart(rng.choice(PNAMES[:5]), rng.choice(FNAMES + ctx.h['new_strs']), d, te, ct, extra)
BOUNDS = ['BB', 'B', '----WebKitFormBoundary7MA4YWxk', 'x' * 70, "a'()+_,-./:=?b", '0', '-', '--', 'AaB03x', 'B-B']
def rmulti(rng, ctx, **k):
    b = rng.choice(BOUNDS) if rng.random() < .4 else 'BB'
    parts = [rpart(rng, ctx, b, **k) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6]))]
    body = mbody(parts, b, rng.choice(['', '', '', '\r\n', 'preamble\r\n']), rng.choice(['--\r\n', '--\r\n', '--', '--\r\nepilogue', '\r\n']))
    return b, body
def quoteb(b):
    return '"%s"' % b if any(c in b for c in "()+,/:=? '") else b
def rcfg(rng, ctx, **k):
    return cfg(**dict(dict(mhs=rmhs(rng, ctx), cs=rng.choice(['latin1', 'latin1', 'utf8']), mode=rng.choice(['conv', 'conv', 'conv', 'temp', 'temp', 'memtemp', 'memtemp', 'mem', 'mem', 'none']),
                           fum=rng.choice([0, 3, 20, 100, 100000]), chunk=rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 64, 1024, 4096])), **k))
def c08(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    for d in DATA:                       # every payload as field and as file, alone and followed by another part
        out.append(mcase(rng, mbody([fpart('a', d)]), cf=rcfg(rng, ctx)))
        out.append(mcase(rng, mbody([upart('a', 'f', d), fpart('z', 'zz')]), cf=rcfg(rng, ctx)))
    # whatever precedes the delimiter
    ends = [''.join(t) for k in (1, 2, 3) for t in itertools.product('\r\nx', repeat=k)]
    for e in ends:
        for pre in ('', 'data'):
            ps = [fpart('a', pre), upart('u', 'f', pre)][::rng.choice([1, -1])]
            out.append(mcase(rng, '--BB\r\n' + ps[0] + e + '--BB\r\n' + ps[1] + e + '--BB--\r\n', cf=rcfg(rng, ctx)))
    for i, x in enumerate(PNAMES):
        nm = x.replace('"', '\\"')
        out.append(mcase(rng, mbody([fpart(nm, 'v%d' % i), upart(nm, 'f.t', 'w'), fpart(nm, 'z')]), cf=rcfg(rng, ctx)))
    for n in lengths(ctx, 0, 70000, [100, 1000, 1023, 1024, 1025, 4096, 16384, 65535, 65536, 65537])[:(40 if big else 22)]:
        d = ('0123456789ABCDEF' * (n // 16 + 1))[:n]
        out.append(mcase(rng, mbody([upart('a', 'f', d), fpart('b', d[:2000])]), cf=rcfg(rng, ctx, chunk=rng.choice([0, 4096]) if n > 3000 else 0), src=lambda b: S(b, rng.choice([[1 << 20], [65536], [5000]]))))
        out.append(mcase(rng, mbody([fpart('b', d), upart('a', 'f', 'x')]), cf=rcfg(rng, ctx, chunk=0), src=lambda b: S(b, [1 << 20])))
        m = min(n, 250)
        out.append(mcase(rng, mbody([fpart('k%d' % (i % 3), str(i)) for i in range(m)]), cf=cfg(duf=-1)))
    for nb in [1, 2, 69, 70, 71, 100, 200, 201]:
        b = ('Boundary-' * 30)[:nb - 1] + 'z'
        out.append(mcase(rng, mbody([fpart('a', 'x'), upart('u', 'f', 'yy')], b), b, rcfg(rng, ctx)))
    for hl in [500, 900, 1000, 1005, 1010, 1015, 1020, 1022, 1024, 1025, 1100]:    # part heads near the size limit of a head
        out.append(mcase(rng, mbody([fpart('a', 'x' * 50, extra=[('X', 'y' * (hl - 60))]), fpart('b', 'c')]), cf=rcfg(rng, ctx)))
    n = len(out) + (2600 if big else 330)
    while len(out) < n:
        b, body = rmulti(rng, ctx)
        r = rng.random()
        if r < .1 and 'base64' not in body.lower(): body = body[:rng.randint(0, len(body))]
        cl = None if rng.random() < .8 else rng.choice(['1', '99999', '+5', '007', ' 12 '])
        ct = rng.choice(['multipart/form-data; boundary=%s', 'Multipart/Form-Data; boundary=%s', 'multipart/form-data;boundary=%s;x=y', 'multipart/form-data; charset=utf-8; boundary=%s', 'multipart/form-data ; BOUNDARY=%s']) % quoteb(b)
        out.append(mcase(rng, body, b, rcfg(rng, ctx), cl=cl, ct=ct))
    return out
def c09(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    bodies = [mbody([fpart('a', 'x\r\n--B\r'), upart('f', 'n.t', '\r\n--\r\nBB\r\n'), spart('name="q"\r\n\r\n-')]),
              mbody([upart('f', 'n', '-' * 20), fpart('a', ''), fpart('a', '\r')], 'B'),
              mbody([upart('f', 'n', rb64(rng, 'some data, longer'), te='base64'), spart('Content-Disposition: form-data; name="evil"\r\n\r\nv', 4), fpart('z', '1')])]
    for bi, body in enumerate(bodies):
        b = 'B' if bi == 1 else 'BB'
        for ch in range(1, len(body) + 2) if big else list(range(1, 40)) + list(range(40, len(body) + 2, 7)):
            out.append(mcase(rng, body, b, cfg(chunk=ch, mode=rng.choice(['conv', 'temp']), fum=rng.choice([0, 10, 1000]))))
        for k in range(1, len(body), 1 if big else 4):
            out.append(mcase(rng, body, b, cfg(chunk=rng.choice([1, 3, 0])), src=lambda s: S(s, [len(s) - len(body) + k, 10000])))
    for nb in [40, 59, 60, 70, 120, 201]:      # delimiters longer than many chunks
        b = ('Boundary-' * 30)[:nb - 1] + 'z'
        body = mbody([fpart('a', 'x' * rng.randint(0, 90)), upart('u', 'f', 'y' * rng.randint(0, 300)), fpart('c', '\r\n--' + b[:nb - 2])], b)
        for ch in (1, 2, 3, nb, nb + 4, nb + 8):
            out.append(mcase(rng, body, b, rcfg(rng, ctx, chunk=ch)))
    n = len(out) + (2500 if big else 300)
    while len(out) < n:
        b, body = rmulti(rng, ctx, skip=.3)
        cf = rcfg(rng, ctx, chunk=rng.choice([1, 2, 3, 4, 5, 7, 10, 11, 12, 16, 20, 33, 64, 100, 1023, 1024, 1025] + lengths(ctx, 1, 70000)))
        out.append(mcase(rng, body, b, cf, ct='multipart/form-data; boundary=' + quoteb(b)))
    # a skipped part larger than the space for a part head, whose content looks like parts
    evil = 'Content-Disposition: form-data; name="evil"\r\n\r\nboo'
    for pre in [0, 10, 900, 1000, 1020, 1024, 1030, 2000, 3000]:
        for kind in range(6):
            out.append(mcase(rng, mbody([spart('x' * pre + evil + '\r\n' + evil, kind), fpart('ok', '1')]), cf=cfg(chunk=rng.choice([0, 100, 1024, 7]))))
    return out
