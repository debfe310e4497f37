"""Inputs for request traces: call histories, several requests, failing sources, uploads, names, base64, malformed bodies."""
import os, re
from gbody import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIT = {m.group(1): bytes(int(x) for x in m.group(2).split(',')).decode('latin-1')
       for m in re.finditer(r'(?m)^(\w+) == <<([\d, ]+)>>', open(os.path.join(VERIF, 'spec', 'Lit.tla')).read())}
MSTREAMS = [('xForm', 0), ('xMulti', 0), ('xText', 0), ('xBad', 0), ('xGet', 0), ('xEmptyForm', 0), ('bForm', 0), (None, 0), ('bMulti', 0), ('bText', 0),
            ('xFailHead', 1), ('xForm', 1), ('bText', 1)]
def model_streams(rng):
    out = []
    for n, f in MSTREAMS:
        b = LIT[n] if n else ''
        if n is None and rng.random() < .5:
            out.append({'b': '=', 'fail': False, 'none': True})
            continue
        out.append(S(b, rcuts(rng, len(b)), f, once=bool(f and rng.random() < .3), io=not f and rng.random() < .2))
    return out
def from_histories(rng, hists, n, **kw):
    """Replays histories printed by TLC; cuts, read sizes and upload handlers vary."""
    if n < len(hists):
        hists = rng.sample(hists, n)
    out = []
    for h in hists:
        cf = cfg(mhs=rng.choice(MHS_POOL), fum=rng.choice([0, 3, 100000]), chunk=rng.choice([0, 0, 5, 64]), mode=rng.choice(['conv', 'conv', 'temp']))
        cfs = [cf] * len(h['init'])
        ops = [dict(o, v='=' + ''.join(map(chr, o['v']))) if 'v' in o else dict(o) for o in h['ops']]
        c = case(model_streams(rng), ops, cfs, list(h['init']))
        c.update(kw)
        out.append(c)
    return out

# ---------------------------------------------------------------- life of a request
def rstream(rng, ctx):
    """A stream of any sort with plausible follow-up body streams."""
    r = rng.random()
    if r < .3:
        cs = rng.choice(['', '; charset=utf-8', '; charset=us-ascii', '; charset=iso-8859-1'])
        return post(query(rng, ctx, True), URLENC + cs, target='/p' + rng.choice(['', '?a=%C3%A9', '?a=1&a=2']))
    if r < .6:
        b, body = rmulti(rng, ctx)
        return post(body, 'multipart/form-data; boundary=' + quoteb(b), [('Content-Length', str(len(body)))])
    if r < .8: return post(rng.choice(BODIES), rng.choice(['text/plain', None, 'application/json; charset=utf-8', 'text/plain; charset=us-ascii']))
    if r < .9: return head('GET', '/g?x=%E9&y=2', headers=[('Host', rng.choice(['a.b', 'h:1'])), ('X', 'y')])
    return rng.choice(['', 'GET / HTTP/1.1\r\n', 'GET /\r\nHost: h\r\n\r\n', 'GET / HTTP/1.1\r\nX: y\r\n\r\n', 'junk\r\n\r\n'])
def rops(rng, ns, n, r=1, enc=True):
    ops = []
    for _ in range(n):
        o = rng.choice(['head', 'pbody', 'parse', 'parse', 'body', 'body', 'read', 'readline', 'lines', 'stream', 'bstream', 'enc', 'close', 'pbody', 'poke'])
        d = {'op': o, 'r': r}
        if o == 'read': d['n'] = rng.choice([-1, 0, 1, 2, 5, 100])
        if o in ('read', 'readline', 'lines') and not any(x['op'] in ('head', 'parse', 'body') for x in ops): d = {'op': 'head', 'r': r}
        if o in ('stream', 'bstream'): d['s'] = rng.randint(1, ns)
        if o == 'enc':
            if not enc: continue
            d['cs'] = rng.choice(['utf8', 'latin1', 'ascii'])
        ops.append(d)
    return ops
def safe_ops(streams_ops):
    """After replacing the whole stream, read as a file only once the head is parsed again."""
    out, ready = [], False
    for o in streams_ops:
        if o['op'] == 'stream': ready = False
        if o['op'] in ('head', 'parse', 'body'): ready = True
        if o['op'] in ('read', 'readline', 'lines') and not ready: continue
        out.append(o)
    return out
def c15(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = from_histories(rng, ctx.gen('MC_Request', 'Gen_Request_big.cfg' if big else 'Gen_Request.cfg'), 9000 if big else 650)
    # nothing of what was read before is left when another stream, or none, is given
    none = {'b': '=', 'fail': False, 'none': True}
    for first in (post('text', 'text/plain'), post('a=1&b=2'), post(mbody([fpart('a', 'x'), upart('u', 'f', 'y')]), 'multipart/form-data; boundary=BB', [('Content-Length', '99')]), head('GET', '/?q=1', headers=[('Host', 'h')])):
        for ops in (['parse'], ['body'], ['body', 'pbody'], ['head'], ['head', {'op': 'read', 'n': 2}], ['head', 'readline'], []):
            for o in ('stream', 'bstream'):
                for new in (none, rng.choice([S('', [1]), S('new', [1])])):
                    then = rng.choice([['body', 'body'], ['pbody', 'body'], [{'op': 'read', 'n': -1}], ['lines'], ['pbody', 'readline'], ['parse'], ['body', 'pbody', 'body']])
                    if o == 'stream': then = [rng.choice(['head', 'parse', 'body'])] + then
                    elif not ops: then = ['head'] + then
                    out.append(case([rsrc(rng, first), dict(new)], list(ops) + [{'op': o, 's': 2}] + then, [rcfg(rng, ctx)]))
    n = len(out) + (2500 if big else 110)
    while len(out) < n:
        st = [rstream(rng, ctx) for _ in range(3)] + [rng.choice(['', 'z=1', 'text'])]
        cf = rcfg(rng, ctx)
        if cf['mode'] != 'conv' and rng.random() < .6: cf['explicit'] = True
        out.append(case([rsrc(rng, b) for b in st], safe_ops(rops(rng, 4, rng.randint(3, 12))), [cf]))
    return out
def c16(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    h = ctx.gen('MC_Request', 'Gen_Two.cfg')
    out = from_histories(rng, h, 3000 if big else 200, shared=True) + from_histories(rng, h, 600 if big else 60)
    n = len(out) + (2000 if big else 160)
    k = 0
    while len(out) < n:
        m = rng.choice([2, 2, 3, 4])
        st = [rstream(rng, ctx) for _ in range(5)]
        ops = [safe_ops(rops(rng, 5, rng.randint(2, 6), r + 1)) for r in range(m)]
        merged = []
        while any(ops):
            i = rng.choice([i for i in range(m) if ops[i]])
            merged.append(ops[i].pop(0))
        k += 1
        cf = rcfg(rng, ctx)
        if cf['mode'] != 'conv' and rng.random() < .6: cf['explicit'] = True
        init = [rng.randint(1, 5) for _ in range(m)]
        c = case([rsrc(rng, b) for b in st], merged, [cf] * m, init)
        if k % 3 == 0 and not cf.get('explicit'): c['threads'] = True
        if k % 4 != 1: c['shared'] = True
        elif k % 8 == 1:
            c['shared'] = 'default'
            c['cfgs'] = [cfg(mhs=16, fum=30 << 20, dum=5 << 20, duf=4096, cs='latin1')] * m
        out.append(c)
    return out

# ---------------------------------------------------------------- what the caller sets on a request
SCHEMES = ['http', 'https', 'ftp', 'ws', 'x+y', 'httpss', 'shttps', 'HTTPS', 'Http', 'hTTPs', 'FTP', 'X']
PTOK = ['/', '//', 'a', 'b.c', '..', '%', '%41', '%2F', '%zz', '%C3%A9', '\u00e9', '\u20ac', '\u0100', '?', '#', '&', '=', '+', ' ', ';', ':', '@', '"', "'", '\\\\', '[', ']', '~', '*', '|', '^', '\t', '\x7f', '<', '>', '{', ',', '!', '$', '(', ')', '-', '_']
def setter(rng, ctx):
    r = rng.random()
    if r < .3:
        new = [s for s in ctx.h['new_strs'] if s.isalnum()]
        return {'op': 'scheme', 'v': rng.choice([None, '='] + ['=' + s for s in SCHEMES + new]), 'bytes': rng.random() < .5}
    if r < .65:
        safe = rng.random() < .6
        p = ''.join(rng.choice(PTOK) for _ in range(rng.randint(0, 6)))
        if rng.random() < .7: p = '/' + p
        return {'op': 'path', 'v': '=' + p, 'safe': safe, 'bytes': rng.random() < .3 and all(ord(c) < 128 for c in p)}
    f = rng.choice(['scheme', 'host', 'method', 'path'])
    v = {'scheme': rng.choice(SCHEMES), 'host': rng.choice(['other', 'a.b.c', '10.0.0.1', '[::1]']), 'method': rng.choice(['PUT', 'get', 'X-Y', "it's"]), 'path': rng.choice(['/x', '/x%20y', 'rel', '', '/caf\u00e9', "/o'k"])}[f]
    return {'op': 'set', 'f': f, 'v': '=' + v, 'bytes': all(ord(c) < 128 for c in v) and rng.random() < .5}
def handlers(rng, last=False):
    return {'op': 'handlers', 'mode': rng.choice(['temp', 'mem', 'memtemp', 'none'] + ['conv'] * 3 * last), 'chunk': rng.choice([0, 0, 3, 16, 64])}
def c30(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    def add(streams, ops, cf):
        ops = [dict(o if isinstance(o, dict) else {'op': o}, uri=True) for o in ops]
        out.append(case([rsrc(rng, b) for b in streams], ops, [cf]))
    raw = lambda d: mbody([fpart('f', 'w', ct='text/plain; x=1'), upart('u', 'n.t', d)], 'B')
    up = lambda d='data': (lambda b: post(b, 'multipart/form-data; boundary=B', [('Content-Length', str(len(b)))]))(mbody([fpart('f', 'v'), upart('u', 'n.t', d), upart('u', 'm', d * 3)], 'B'))
    for c in from_histories(rng, [h for h in ctx.gen('MC_Request', 'Gen_Set.cfg') if any(o['op'] in ('scheme', 'path', 'set', 'handlers') for o in h['ops'])], 6000 if big else 260):
        for o in c['ops']: o['uri'] = True
        out.append(c)
    for _ in range(1200 if big else 140):        # every sort of request and moment
        st = [rng.choice([rstream(rng, ctx), up(), head(rng.choice(['GET', 'PUT']), rng.choice(['/p?q=1', 'https://g:8/x', 'http://h2/y?z=%E9', 'http://h2?z=1', 'HTTP://h2', 'ws://h3?', '*', '/a%20b', '?q', ''])), post('text', rng.choice(['text/plain', 'text/plain; charset=utf-8', 'TEXT/PLAIN', 'text/plainx', 'text/html']))]) for _ in range(2)]
        ops = []
        for _ in range(rng.randint(2, 8)):
            r = rng.random()
            ops.append(setter(rng, ctx) if r < .55 else rng.choice(['head', 'head', 'parse', 'pbody', {'op': 'stream', 's': 2}, {'op': 'bstream', 's': 2}, {'op': 'enc', 'cs': rng.choice(['utf8', 'latin1', 'ascii'])}, 'close', 'poke']))
        add(st, ops, rcfg(rng, ctx))
    for _ in range(900 if big else 130):         # handlers chosen before, between and after bodies
        st = [up('d' * rng.choice([0, 1, 7, 40])), up('e' * 20), rng.choice(['', 'z=1', 'text']), post('a=1', URLENC), raw('g' * rng.choice([1, 30])), raw('h')]
        pre = rng.choice([[], ['head'], ['head', 'body'], ['pbody'], ['head', setter(rng, ctx)], ['parse'], ['close'], ['head', handlers(rng)]])
        ops = list(pre) + [handlers(rng, True)] + rng.choice([['parse'], ['parse', handlers(rng)], ['head', 'pbody', handlers(rng), 'close'], ['head', 'body', 'pbody', 'close']])
        if ops[len(pre)]['mode'] != 'conv' and rng.random() < .5:
            ops += rng.choice([[{'op': 'stream', 's': 2}, 'parse'], [{'op': 'stream', 's': 2}, handlers(rng), 'parse', 'close'], [{'op': 'stream', 's': 4}, 'parse', handlers(rng)], [{'op': 'bstream', 's': 3}, handlers(rng), 'pbody', handlers(rng)]])
        if ops[len(pre)]['mode'] != 'conv' and rng.random() < .6:
            for _ in range(rng.randint(1, 3)):      # further bodies of the same request: the handlers stay
                ops += [{'op': 'bstream', 's': rng.choice([5, 5, 6])}, 'pbody'] + rng.choice([[], [], ['poke'], ['close']])
        cf = cfg(fum=rng.choice([0, 5, 50, 100000]), chunk=rng.choice([0, 0, 4, 64]), mode=rng.choice(['conv', 'conv', 'temp', 'mem']), mhs=rng.choice(MHS_POOL))
        add(st, ops, cf)
    return out

# ---------------------------------------------------------------- failing sources
def c21(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    full = [(LIT['xForm'], [['parse'], ['head', 'body'], ['head', 'pbody'], ['body']]), (LIT['xMulti'], [['parse'], ['head', 'pbody'], ['head', 'body']]),
            (LIT['xText'], [['parse'], ['body'], ['head', {'op': 'read', 'n': 100}], ['head', 'readline', 'readline'], ['head', 'lines'], ['head', {'op': 'read', 'n': 2}, {'op': 'read', 'n': 2}, 'body'], ['head', {'op': 'read', 'n': -1}], ['head', 'readlines']]),
            (LIT['xGet'], [['head'], ['parse'], ['head', 'body']]), (LIT['xEmptyForm'], [['parse'], ['head', 'body']])]
    for b, opss in full:
        for k in range(0, len(b) + 1):
            if not big and k < len(b) - 70 and k % 9: continue
            for ops in (opss if big else [rng.choice(opss)]):
                out.append(case(S(b[:k], rcuts(rng, k), True, once=rng.random() < .5), ops, [cfg(mhs=rng.choice(MHS_POOL), fum=rng.choice([0, 100000]), chunk=rng.choice([0, 3, 64]), mode=rng.choice(['conv', 'temp']))]))
    for size, step in [(70000, 5000), (70000, 70000), (65536, 65536), (65537, 1 << 20), (66000, 1024), (140000, 65536)] + [(n, rng.choice([999, 4096, 1 << 17])) for n in lengths(ctx, 1000, 200000)[:6]]:
        for ct in ('text/plain', None):          # a long body, cut off: nothing of it is passed for the whole
            st = S(post('z' * size, ct), [step], True, once=rng.random() < .4)
            out.append(case(st, rng.choice([['body', 'body'], ['parse', 'body', 'body'], ['head', 'body', 'pbody'], ['head', {'op': 'read', 'n': 3}, 'body', 'body'], ['body', {'op': 'read', 'n': 10}]]), [cfg(dum=300000, mhs=rng.choice(MHS_POOL))]))
    n = len(out) + (2000 if big else 200)
    ALL = ['parse', 'body', 'pbody', 'readline', 'lines', 'readlines', 'xreadlines', {'op': 'readline', 'n': 2}, {'op': 'readline', 'n': 500}, {'op': 'read', 'n': 3}, {'op': 'read', 'n': -1}, {'op': 'read', 'n': 1000}]
    while len(out) < n:
        b = rstream(rng, ctx)
        ops = [rng.choice(['head', 'head', 'parse', 'body'])] + [rng.choice(ALL) for _ in range(rng.randint(1, 3))]
        s = S(b[:rng.randint(0, len(b))] if rng.random() < .7 else b, rcuts(rng, len(b)), True, once=rng.random() < .4)
        c = case([s, rsrc(rng, rstream(rng, ctx))], ops, [rcfg(rng, ctx)])
        if rng.random() < .3: c['ops'] += [{'r': 1, 'op': 'stream', 's': 2}, {'r': 1, 'op': 'parse'}]
        out.append(c)
    return out

# ---------------------------------------------------------------- file names
NTOK = ['/', '\\\\', '.', '..', 'a', 'b.c', ' ', '&amp;', '&#47;', '&#92;', '&#x2f;', '&#x5C;', '&lt;', '&bogus;', '&', ';', '&#32;', '&#46;', 'txt', '-', '~', ':', '&quot;', '&eacute;', "'", '%2f', '%5c', '&#', '&#x;', '&#0047;', 'C:', '\t', '&amp;#47;', '&nbsp;', '\\"', '=', ',', '&#9;', 'CON', '\xc3\xa9', '\xe9', '&Eacute;', '&AMP;', '&Alpha;', '&euro;', '&sup2;', '&thetasym;', '&#233;', '&#256;', '&#xE9;', '&#XE9;', '&#1114112;', '&#00;', '&frac12;', '&copy']
EXTV = ["utf-8''%e2%82%ac.txt", "utf-8'en'caf%C3%A9%2Fx.txt", "iso-8859-1''%e9%5Cy.txt", "UTF-8''plain", "utf-8''", "utf-8''..%2f..%2fetc%2fpasswd", "x-bogus''%41b", "utf-8'%41", "us-ascii'en-us'a%20b", "utf-8''a%26amp;b", "''x", "utf-8''%20", "utf-8''%00", "iso-8859-1''a%2fb%5cc", "utf-8''%F0%9F%98%80.png"]
def name_part(rng, raw_name, data='d', field='u', ext=False, q='"'):
    d = 'form-data; name="%s"; ' % field + ('filename*=%s' % raw_name if ext else 'filename=%s%s%s' % (q, raw_name, q))
    return upart(field, None, data, raw=d)
def ncase(rng, parts, ctx):
    return mcase(rng, mbody(parts), cf=rcfg(rng, ctx, fum=rng.choice([0, 0, 100000])), ops=['parse', 'close'])
def c12(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    names = [''.join(t) for n in (1, 2, 3) for t in itertools.product(NTOK[:14], repeat=n)]
    rng.shuffle(names)
    batch = names[: (2600 if big else 600)]
    for i in range(0, len(batch), 4):
        ps = []
        for j, nm in enumerate(batch[i:i + 4]):
            ps += [name_part(rng, nm, 'c%d' % j, 'u%d' % j)]
        out.append(ncase(rng, ps + [fpart('end', 'x')], ctx))
    for n in lengths(ctx, 1, 900, [1, 200, 240, 249, 250, 251, 253, 254, 255, 256, 257, 300, 500]):
        for pat in ('%s', '%s.txt', 'a/%s.jpeg', '.%s', 'n.%s', '%s.tar.gz', 'a.%s.b'):
            if big or rng.random() < .5:
                out.append(ncase(rng, [name_part(rng, pat % ('x' * n)), fpart('e', '')], ctx))
    for e in EXTV:
        out.append(ncase(rng, [name_part(rng, e, ext=True), fpart('e', '')], ctx))
        out.append(ncase(rng, [upart('u', None, 'd', raw='form-data; name="u"; filename="plain.txt"; filename*=%s' % e), fpart('e', '')], ctx))
    for s in ctx.h['new_strs']:
        for nm in (s, s + '.txt', 'a.' + s.strip('.'), 'd/' + s):
            if '"' not in nm: out.append(ncase(rng, [name_part(rng, nm), fpart('e', '')], ctx))
    n = len(out) + (1500 if big else 170)
    while len(out) < n:
        ps = []
        for j in range(rng.randint(1, 4)):
            nm = ''.join(rng.choice(NTOK) for _ in range(rng.randint(1, 6)))
            ps.append(name_part(rng, nm, 'c%d' % j, rng.choice(['u', 'v']), q=rng.choice(['"'] * 5 + ['']) if '\\' not in nm and ';' not in nm and '"' not in nm else '"'))
        out.append(ncase(rng, ps + [fpart('end', 'x')], ctx))
    return out

# ---------------------------------------------------------------- base64
def c13(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    alpha = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
    def b64case(d, kinds, chunk, **k):
        ps = []
        for i, kd in enumerate(kinds):
            ps.append(fpart('f%d' % i, d, te='base64') if kd == 'f' else upart('u%d' % i, 'n.bin', d, te=rng.choice(['base64', 'Base64', ' base64'])))
        ps.append(fpart('last', 'plain', te=rng.choice([None, '7bit'])))
        return mcase(rng, mbody(ps), cf=cfg(chunk=chunk, mode=rng.choice(['conv', 'temp']), fum=rng.choice([0, 5, 100000])), **k)
    for n in range(0, 40):                           # every length; whole and truncated
        raw = ''.join(chr(rng.randint(0, 255)) for _ in range(n))
        e = rb64(rng, raw)
        for ch in ([rng.choice([1, 2, 3, 5])] + ([4, 7, 64, 0] if big else [rng.choice([0, 4, 7, 11, 64])])):
            out.append(b64case(e, 'fu', ch))
        t = base64.b64encode(raw.encode('latin-1')).decode().rstrip('=')
        if len(t) % 4: out.append(b64case(t, 'u', rng.choice([0, 1, 3, 4, 5])))
        t = ''.join(rng.choice(alpha) for _ in range(n))
        if n % 4: out.append(b64case(t, rng.choice(['u', 'f', 'fu']), rng.choice([0, 1, 3, 4, 5])))
    for ch in range(1, 60 if not big else 140):      # every chunk size over one text with line breaks
        d = '\r\n'.join(['QUJDREVGR0hJ', 'S0xN', 'Tk8=']) if ch % 2 else 'Q U J D\tR\r\nEVG R0hJ  S0xN\r\n\r\nTk8='
        out.append(b64case(d, 'u' if ch % 3 else 'uf', ch))
    for n in lengths(ctx, 1, 70000, [57, 76, 1000, 1023, 1024, 4096, 49152, 65535, 65536])[:20]:
        raw = ''.join(chr((i * 7 + n) & 255) for i in range(n))
        out.append(b64case(rb64(rng, raw) if n < 5000 else base64.b64encode(raw.encode('latin-1')).decode(), 'u', rng.choice([0, 4096, 1024, 1021]) if n > 2000 else rng.choice([0, 64, 61]), src=lambda b: S(b, [1 << 20])))
    for t in ['Q', 'QU', 'QUJ', 'QUJDR', 'QU JDR', 'QUJD RA', 'Q\r\nU', 'QUJD\r\nRA\r\n', ' QUJDRA ', 'QUJDREVG\tR', '=', '==', 'A=', 'QUJD\nQQ\n', 'Q=Q=']:
        if '=' not in t: out.append(b64case(t, rng.choice(['uf', 'u', 'fu']), rng.choice([0, 1, 3, 7])))
        if '=' not in t: out.append(b64case(t, 'f', 0))
    # longer than the room for a part head, broken into very short lines
    for w in (1, 2, 3, 5, 6):
        for ch in ([0, 64, 1021, 1024] if big else [rng.choice([0, 1024]), rng.choice([13, 61, 64])]):
            raw = ''.join(chr(rng.randint(0, 255)) for _ in range(900 if w < 3 else 1300))
            e = base64.b64encode(raw.encode('latin-1')).decode()
            out.append(b64case(rng.choice(['\n', ' ', '\r\n']).join(e[i:i + w] for i in range(0, len(e), w)), 'u', ch))
    for ws in [' ', '\t', '\r\n', '\n', ' \r\n\t ', '    ', '\x0b', '\x0c']:
        for pos in range(0, 9):
            d = 'QUJDREVG'[:pos] + ws * rng.randint(1, 9) + 'QUJDREVG'[pos:]
            out.append(b64case(d, 'uf', rng.choice([0, 1, 2, 3, 4, 6, 9])))
    n = len(out) + (2000 if big else 150)
    while len(out) < n:
        raw = ''.join(chr(rng.randint(0, 255)) for _ in range(rng.randint(0, 90)))
        e = rb64(rng, raw)
        if rng.random() < .2:
            e = base64.b64encode(raw.encode('latin-1')).decode().rstrip('=')
            e = e[:rng.randint(0, len(e))]
            if rng.random() < .5: e = ' '.join(e[i:i + 5] for i in range(0, len(e), 5))
        out.append(b64case(e, rng.choice(['f', 'u', 'fu', 'uu', 'uf']), rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 16, 64])))
    return out

# ---------------------------------------------------------------- where uploads are kept; closing
def c11(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    for fum in [0, 1, 2, 5, 10, 16] + lengths(ctx, 1, 70000)[:8]:
        for d in (-2, -1, 0, 1, 2):
            n = max(0, fum + d)
            for ch in {0, 1, 2, 3, rng.choice([4, 5, 7, 8, 16])} if fum < 100 else {0, 4096}:
                if not big and rng.random() < .45 and fum < 100: continue
                data = ''.join(chr(33 + (i * 11) % 90) for i in range(n)) if n < 100 or d < 0 else ('0123456789abcde' * (n // 15 + 1))[:n]
                k = rng.randint(0, 3)
                ps = [upart('a', 'x.txt', data, ct='text/plain; charset=utf-8; p=q', te=rng.choice([None, '8bit']))]
                if k == 1: ps.append(upart('b', 'y', 'tail'))
                if k == 2: ps = [upart('a', 'x1', data[:n // 2]), fpart('f', 'field' * 20), upart('a', 'x2.' + 'e' * 40, data[n // 2:])]
                if k == 3: ps += [upart('c', 'z', ''), upart('c', 'z', 'x'), upart('c', 'z', '')]
                out.append(mcase(rng, mbody(ps + [fpart('end', '')]), cf=cfg(fum=fum, chunk=ch, mode='conv'), ops=['parse', 'close'], src=(lambda b: S(b, [1 << 17])) if n > 1000 else None))
    # the limit crossed after more than one chunk is held in memory
    for fum, n, ch in [(66000, 70000, 4096), (131072, 150000, 0)] + ([(100000, 140000, 1000), (131071, 131073, 0), (65536, 140000, 0)] if big else []):
        data = ('0123456789abcdefghijklm' * (n // 23 + 1))[:n]
        out.append(mcase(rng, mbody([upart('a', 'x.bin', data), upart('b', 'y', 'tail')]), cf=cfg(fum=fum, chunk=ch, mode='conv'), ops=['parse', 'close'], src=lambda b: S(b, [1 << 17])))
    # the memory handler is used exactly when the announced length fits
    for cl in [1, 5, 99, 100, 101, 1000]:
        for fum in [0, 1, 5, 100, 101]:
            out.append(mcase(rng, mbody([upart('a', 'x', 'some data'), fpart('e', '1')]), cl=str(cl), cf=cfg(fum=fum, mode=rng.choice(['memtemp', 'mem']))))
    n = len(out) + (2000 if big else 180)
    while len(out) < n:
        fum = rng.choice([0, 3, 10, 30, 100])
        ps = [upart(rng.choice('abc'), rng.choice(FNAMES[:6]), 'd' * rng.choice([0, 1, 2, fum, fum // 2, fum + 1, rng.randint(0, 60)]), rng.choice([None, None, '8bit']), rng.choice(PTYPES)) for _ in range(rng.randint(1, 5))]
        ps += [fpart('f', 'v' * 50)] * rng.randint(0, 1)
        rng.shuffle(ps)
        out.append(mcase(rng, mbody(ps), cf=cfg(fum=fum, chunk=rng.choice([0, 1, 2, 3, 4, 7, 16, 64]), mode=rng.choice(['conv', 'conv', 'conv', 'temp', 'memtemp', 'mem'])), ops=rng.choice([['parse', 'close'], ['parse'], ['head', 'pbody', 'close', 'close']])))
    return out
def c26(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    pre = [['close'], ['head', 'close'], ['close', 'parse', 'close'], ['parse', 'close', 'close'], ['head', 'close', 'pbody', 'close'], ['parse', 'body', 'close'], ['parse', 'parse', 'close']]
    n = 3000 if big else 520
    while len(out) < n:
        fum = rng.choice([0, 1, 4, 10, 50])
        ps = [rng.choice([upart(rng.choice(['a', 'a', 'b', 'c']), rng.choice(['x', 'x.txt', 'y.tar.gz', 'e.' + 'x' * 50, 'w.a/b', 'q.\xc3\xa9']), 'd' * rng.choice([0, 0, 1, 3, fum, fum + 1, 40]), rng.choice([None, None, None, 'base64x'])), fpart('f', 'v'), spart('junk', rng.randint(0, 5))]) for _ in range(rng.randint(0, 6))] + [fpart('z', '')]
        body = mbody(ps)
        cf = cfg(fum=fum, chunk=rng.choice([0, 1, 3, 16]), mode=rng.choice(['conv', 'conv', 'temp', 'memtemp', 'mem']))
        r = rng.random()
        if r < .12: cf['duf'] = 1
        if r > .94: body = body[:rng.randint(0, len(body))]
        ops = rng.choice(pre)
        c = mcase(rng, body, cf=cf, ops=ops)
        if rng.random() < .15:
            c['streams'].append(rsrc(rng, rstream(rng, ctx)))
            c['ops'] += [{'r': 1, 'op': rng.choice(['stream', 'bstream']), 's': 2}, {'r': 1, 'op': 'parse'}, {'r': 1, 'op': 'close'}]
        out.append(c)
    return out

# ---------------------------------------------------------------- anything as a multipart body
MTOK = ['--BB', '--BB--', '\r\n', '\n', '\r', '--', '-', 'B', 'BB', 'Content-Disposition: form-data; name="a"', 'Content-Disposition: form-data; name="u"; filename="f"', 'Content-Disposition:', ': ', 'Content-Type: text/plain', 'Content-Transfer-Encoding: base64', '\r\n\r\n', 'x', 'QUJD', 'data', '\x00', '\xff', ' ', '; name=b', '"', 'filename=', 'Content-Disposition: form-data; name=', 'Content-Length: 5', "; filename*=utf-8''%41", '=', 'a' * 30]
def junk(rng):
    return ''.join(rng.choice(MTOK) for _ in range(rng.randint(0, 25)))
CTV = ['multipart/form-data; boundary=BB', 'multipart/form-data', 'multipart/form-data; boundary=', 'multipart/form-data; boundary=""', 'multipart/form-data; boundary="a b"', 'multipart/form-data; boundary="a "', 'multipart/form-data; boundary="BB\n"', 'multipart/form-data; boundary="B\nB"', 'multipart/form-data; boundary="\n"', 'multipart/form-data; boundary=' + 'x' * 200, 'multipart/form-data; boundary=' + 'x' * 201, 'multipart/form-data; boundary=' + 'x' * 202, 'multipart/form-data; boundary=\xe9', 'multipart/form-data; boundary="B\tB"', 'Multipart/Form-Data; BOUNDARY=BB', 'multipart/form-data; boundary=CC; boundary=BB', "multipart/form-data; boundary*=utf-8''BB", "multipart/form-data; boundary*=utf-8''%42%42", "multipart/form-data; boundary*=utf-8''%e2%82%ac", "multipart/form-data; boundary*=bogus''BB", 'multipart/form-data; boundary=BB; charset=utf-8', 'multipart/form-data; charset=bogus; boundary=BB', 'multipart/form-data;boundary=BB', 'multipart/form-data; boundary="BB', 'multipart/form-data ; boundary=BB', 'multipart/form-data; boundary=\x7f', 'multipart/form-data; boundary="B;B"', 'multipart/form-data; boundary=\x00', 'multipart/form-datax; boundary=BB', 'multipart/mixed; boundary=BB']
CLV = ['5', '0', '-1', '-0', '+7', 'x', '', ' 9 ', '1e3', '0x10', '99999999999999999999', '-99999999999999999999', '1_0', '1.0', '٣'.encode().decode('latin-1'), '00', '007', '1L']
def tame(body):
    """Parts declared base64 whose text is neither well-formed nor merely truncated are outside what C13 and C08 state."""
    for m in re.finditer(r'base64[\s\S]*?(?=--BB|\Z)', body, re.I):
        seg = m.group(0)
        i = seg.find('\r\n\r\n')
        d = re.sub(r'\s', '', seg[i + 4:]) if i >= 0 else ''
        if i >= 0 and not re.fullmatch(r'[A-Za-z0-9+/]*', d): return False
    return True
def c23(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    ok = mbody([fpart('a', 'x'), upart('u', 'f', 'data'), fpart('b', 'y')])
    for ct in CTV:
        for body in (ok, '', 'junk'):
            out.append(mcase(rng, body, ct=ct, cf=cfg(), ops=['parse']))
    for cl in CLV:
        out.append(mcase(rng, ok, cl=cl, cf=rcfg(rng, ctx), ops=['parse']))
        out.append(mcase(rng, ok, cl=cl, ct=rng.choice(CTV), cf=cfg(), ops=['parse']))
    out.append(case(S(post(ok, 'multipart/form-data; boundary=BB')), ['parse']))
    for k in range(0, len(ok), 1 if big else 3):
        out.append(mcase(rng, ok[:k], cf=cfg(chunk=rng.choice([0, 1, 5, 64])), ops=['parse']))
        out.append(mcase(rng, ok[k:], cf=cfg(chunk=rng.choice([0, 1, 5, 64])), ops=['parse']))
    up64 = mbody([upart('u', 'f', 'QUJDREVGR0hJSktM', te='base64')])
    for k in range(0, len(up64), 1 if big else 2):
        if tame(up64[:k]): out.append(mcase(rng, up64[:k], cf=cfg(chunk=rng.choice([0, 1, 3, 4, 5, 9])), ops=['parse']))
    # the same push-back amount over and over
    for n in (1, 39, 40, 41, 42, 45, 50, 51, 60, 100, 300):
        out.append(mcase(rng, mbody([fpart('a', 'x')] * n), cf=cfg(duf=-1, chunk=rng.choice([0, 0, 64, 4096])), ops=['parse']))
        out.append(mcase(rng, '--BB\r\n' * n, cf=cfg(), ops=['parse']))
        out.append(mcase(rng, '--BB' * n, cf=cfg(), ops=['parse']))
        out.append(mcase(rng, mbody([spart('', i) for i in range(n)]), cf=cfg(), ops=['parse']))
        out.append(mcase(rng, mbody([upart('u', 'f', '')] * n + [fpart('z', '')]), cf=cfg(), ops=['parse']))
    n = len(out) + (4000 if big else 260)
    while len(out) < n:
        r = rng.random()
        if r < .35: body = junk(rng)
        elif r < .5:
            b, body = rmulti(rng, ctx, b64=0)
            body = body.replace('--' + b, '--BB')
            k = rng.randint(0, len(body)); body = body[:k] + rng.choice(MTOK) + body[k:]
        elif r < .7:
            b, body = rmulti(rng, ctx, b64=0)
            body = body.replace('--' + b, '--BB')
            i, j = sorted((rng.randint(0, len(body)), rng.randint(0, len(body)))); body = body[:i] + body[j:]
        elif r < .85:
            k = rng.randint(0, len(ok)); body = ok[:k] + rng.choice(MTOK) + ok[k:]
        else: body = '--BB\r\n' + junk(rng) + '\r\n\r\n' + junk(rng) + '\r\n--BB--'
        if not tame(body): continue
        out.append(mcase(rng, body, ct=rng.choice(CTV) if rng.random() < .15 else None, cl=rng.choice(CLV) if rng.random() < .15 else None,
                         cf=rcfg(rng, ctx, duf=rng.choice([1000, 1000, 2]), dum=rng.choice([1000000, 1000000, 20])), ops=['parse']))
    return out
