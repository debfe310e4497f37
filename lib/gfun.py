"""Inputs for the functions without state."""
import itertools, base64, datetime, random
from gbody import *

def groups(ops, n=10, rng=None):
    return [dict(kind='fun', ops=ops[i:i + n]) for i in range(0, len(ops), n)]
def u8(t):
    return t.encode('utf-8').decode('latin-1')
def both(rng, t, p=.35):
    """The text, or its UTF-8 bytes."""
    return ('=' + u8(t), True) if rng.random() < p else ('=' + t, False)

# ---------------------------------------------------------------- redirects and hosts
UTOK = ['http', 'https', ':', '/', '//', '\\', 'a', 'evil.com', '@', '?', '#', '\t', ' ', '\n', ':80', '[', ']', '.', ';', 'x']
UODD = ['\x00', '\x08', '\x1b', '\x1c', '\x7f', '\x85', '\xa0', '\xad', '\u200b', '\u2028', '\u3000', '\ufeff', '\ue000', '\ufffe', '\uffff', '\ufdd0', '\xe9', 'javascript', 'HTTP', 'ftp', 'data', '%2f', '%5c', '///', '\r\n', '\\\\', '::', 'A', 'a.evil', 'evil.a', '&', '+', '-', '1', ' //', '\uff0f']
UFIX = ['http://a', 'https://a', '//a', 'http://a/', 'HTTP://a/x', '//A', 'http://a:80', 'http://u@a', '/x', 'x', '/x//y', '?//evil.com', '#//evil.com', '/', '', ' ', 'http:a', 'http:/a', 'http:///a', 'https:\\\\evil.com', '/\\evil.com', '\\/evil.com', '\\\\evil.com', 'http://evil.com\\@a', 'http://a\\@evil.com', 'http://evil.com@a', 'http://a@evil.com', '//a//evil.com', 'javascript:alert(1)', 'mailto:x', 'http://[::1', 'http://]a', '//[a]', 'a:80', 'a:b', '1:2', ':x', '/:x', 'http://a?x=//evil.com', 'http://a#x', '\x08//evil.com', '\x7f/x', '\xad//evil', '\u200b//evil', '\ue000x', '\xa0//evil.com', '/\t/evil.com', '\t//evil.com', 'ht\ntp://evil.com', 'http:\\a', '//\\a', 'x\\y', '/x?y=\\\\evil.com', 'http://testserver/x', '//evil.com/http://a', '////a', '///a', 'https:///a', 'http:/', 'http://', '//', '//?', 'http://?x', 'A', 'http://a/\\', '\\', '\\a', '/\\a', 'http://a\\b']
HOSTSETS = [['a'], [], ['a', 'b'], ['a:80'], ['evil.com', 'a'], ['A'], ['abc'], [''], ['a.evil'], ['\xe9'], ['a\\']]
def rhosts(rng):
    r = rng.random()
    if r < .15: return {'how': 'none', 'hosts': []}
    if r < .35: return {'how': 'one', 'hosts': ['=' + rng.choice(['a', 'abc', 'evil.com', 'a:80', ''])]}
    return {'how': rng.choice(['set', 'set', 'list']), 'hosts': ['=' + h for h in rng.choice(HOSTSETS)]}
def sop(rng, t):
    h = rhosts(rng)
    if all(ord(c) < 128 for x in h['hosts'] for c in x):
        u, b = both(rng, t)
    else: u, b = '=' + t, False
    return dict(op='safe', u=u, bytes=b, https=rng.random() < .3, **h)
def wrap(t, ctl=True):
    return t
HLAB = ['a', 'b', 'A', 'example', 'com', '', 'xn--a', '1', 'EXAMPLE', '\xe9']
def c22(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    ops = []
    toks = UTOK[:12]
    seqs = [''.join(t) for n in range(0, 6 if big else 4) for t in itertools.product(toks, repeat=n)]
    if len(seqs) > 60000: rng.shuffle(seqs); seqs = seqs[:60000]
    ops += [sop(rng, s) for s in (seqs if big else rng.sample(seqs, 900))]
    for t in UFIX + ['http://%s/' % s for s in ctx.h['new_strs']] + ctx.h['new_strs'] + ['//' + s for s in ctx.h['new_strs']]:
        for how, hs in (('none', []), ('set', ['=a']), ('one', ['=abc']), ('one', ['=a'])):
            for https in (False, True):
                ops.append(dict(op='safe', u='=' + u8(t), bytes=True, https=https, how=how, hosts=hs))
                ops.append(dict(op='safe', u='=' + t, bytes=False, https=https, how=how, hosts=hs))
    for x in UODD + UTOK:                         # every odd character at the ends and inside of good and bad URLs
        for t in ('//evil.com', '/x', 'http://a/y', 'x', 'http://evil.com'):
            i = rng.randint(0, len(t))
            for s in (x + t, t + x, t[:i] + x + t[i:]):
                ops.append(sop(rng, s))
    ops += [dict(op='safe', u=None, bytes=False, https=False, how='set', hosts=['=a'])] + [dict(op='safe', u='=' + b, bytes=True, https=False, how='set', hosts=['=a']) for b in ('/\xff', '\x80', 'http://a/\xfe', '\xff//evil.com', '/x\xff')]
    n = len(ops) + (20000 if big else 1500)
    while len(ops) < n:
        t = ''.join(rng.choice(UTOK if rng.random() < .85 else UODD) for _ in range(rng.randint(1, 8)))
        if rng.random() < .25: t = rng.choice(['http://', 'https://', '//', '/', 'http:', '\\\\', '/\\']) + t
        ops.append(sop(rng, t))
    labs = HLAB[:5]
    names = ['.'.join(p) for k in (1, 2, 3) for p in itertools.product(labs, repeat=k)]
    for _ in range(6000 if big else 700):
        h = rng.choice(names); p = rng.choice([h, '.' + h, rng.choice(names), '.' + rng.choice(names), h.upper(), '.' + h.split('.', 1)[-1], '.' + h.upper(), h[1:], '.' + h[1:], h + '.', '.', '', 'x' + h, h.split('.', 1)[-1]])
        if rng.random() < .2: h = rng.choice(['x', 'x.', '.', 'evil-', '']) + h
        b = rng.random() < .4
        ops.append(dict(op='domain', host='=' + h, pattern='=' + p if rng.random() < .98 else None, bytes=b))
    for p in itertools.product(['a', '.', 'A', 'b'], repeat=3):
        for h in itertools.product('a.b', repeat=2):
            ops.append(dict(op='domain', host='=' + ''.join(h), pattern='=' + ''.join(p)[:rng.randint(1, 3)], bytes=rng.random() < .5))
    return groups(ops)

# ---------------------------------------------------------------- parameters again
SAFES = ['/', '/:@', '!', "~*'()", '?/', ',', '$', ' ', ':', '"<>', 'abc']
KT = ['a', 'b', '', 'a b', 'k&v', 'x=y', '%41', '+', ';', '#', '\xe9', 'key', "it's", '/p?q', '~', '\n', '\x00', 'A']
VT = KT + ['v', 'v v', '%', '%zz', '%e9', '==', '&&', '100%', 'a+b c', '\x7f', '\r\n', '"<>', '\\', 'x' * 50, '[]', '{}', '^`|', '$!*()', ',@:']
UTXT = ['\u20ac', '\U0001F600', '\u4e2d\u6587', '\xe9\u20ac', '\ufffd', '\u0130', '\xff']
def rtext(rng, cs, pool):
    while True:
        t = ''.join(rng.choice(pool + (UTXT if rng.random() < .3 else [])) for _ in range(rng.choice([0, 1, 1, 1, 2, 3])))
        try:
            t.encode({'utf8': 'utf-8', 'latin1': 'latin-1', 'ascii': 'ascii'}[cs])
            return t
        except UnicodeEncodeError:
            pass
def qmap(rng, cs, ctx):
    ks, out = set(), []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        k = rtext(rng, cs, KT + ctx.h['new_strs'])
        if k not in ks:
            ks.add(k)
            out.append(['=' + k, ['=' + rtext(rng, cs, VT + ctx.h['new_strs']) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]])
    return out
def qop(rng, ctx, cs, m, safe=None):
    if safe is None: safe = rng.choice(SAFES) if rng.random() < .35 else ''
    return dict(op='qd', cs=cs, map=m, safe='=' + safe, arg=rng.random() < .4, copy=rng.random() < .3)
def atoms(rng, ctx, none=.0):
    r = rng.random()
    if r < none: return ['none', '=']
    t = rtext(rng, 'utf8', VT + ctx.h['new_strs'])
    if r < .55: return ['text', '=' + t]
    if r < .8: return ['bytes', '=' + u8(t)]
    if r < .95: return ['int', '=%d' % rng.choice([0, 1, -1, 42, 10 ** 12])]
    return ['true', '=']
def c24(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    ops = []
    for cp in list(range(0, 256)) + [0x100, 0x7ff, 0x800, 0xfffd, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]:   # every character, as name and as value
        for cs in ('utf8', 'latin1', 'ascii'):
            if cp < {'utf8': 1 << 30, 'latin1': 256, 'ascii': 128}[cs] and (big or rng.random() < .7 or cp < 128):
                c = chr(cp)
                ops.append(qop(rng, ctx, cs, [['=' + c, ['=' + c, '=x' + c + 'y']], ['=z' + c, ['=']]]))
    for c in range(32, 127):                      # every printable character declared safe
        if chr(c) not in '&;=+%':
            ops.append(qop(rng, ctx, rng.choice(['utf8', 'latin1', 'ascii']), [['=k' + chr(c), ['=' + chr(c) * 2, '=&=;+%' + chr(c)]]], chr(c) if rng.random() < .7 else chr(c) + '/'))
    for n in lengths(ctx, 1, 3000, [10, 100, 1000, 1001]):
        ops.append(qop(rng, ctx, 'utf8', [['=k', ['=v%d' % i for i in range(min(n, 1500))]]]))
        ops.append(qop(rng, ctx, 'utf8', [['=' + 'k' * n, ['=' + 'v ' * (n // 2)]]]))
    n = len(ops) + (8000 if big else 800)
    while len(ops) < n:
        cs = rng.choice(['utf8', 'utf8', 'latin1', 'ascii'])
        ops.append(qop(rng, ctx, cs, qmap(rng, cs, ctx)))
    n = len(ops) + (6000 if big else 500)
    while len(ops) < n:                           # parse, encode, parse
        cs = rng.choice(['utf8', 'latin1', 'ascii'])
        ops.append(dict(op='reparse', cs=cs, u='=' + query(rng, ctx, True), bytes=True))
    for _ in range(1500 if big else 150):
        q = ''.join(rng.choice(QTOK + ['\xe9', '\u20ac', '\U0001F600']) for _ in range(rng.randint(0, 9)))
        if okesc(q): ops.append(dict(op='reparse', cs=rng.choice(['utf8', 'latin1', 'ascii']), u='=' + q, bytes=False))
    n = len(ops) + (4000 if big else 400)
    while len(ops) < n:                           # the module's encoder
        what = rng.choice(['mvd', 'dict', 'pairs'])
        doseq = what == 'mvd' or rng.random() < .5
        es, used = [], set()
        for _ in range(rng.randint(0, 4)):
            k = atoms(rng, ctx)
            if k[0] == 'true': continue
            if what != 'pairs':
                t = k[1][1:].encode('latin-1').decode('utf-8') if k[0] == 'bytes' else k[1][1:]
                if t in used: continue
                used.add(t)
            how = 'list' if what == 'mvd' else rng.choice(['one', 'list', 'tuple', 'iter']) if doseq else 'one'
            es.append([k, how, [atoms(rng, ctx, .02) for _ in range(1 if how == 'one' else rng.choice([0, 1, 1, 2, 3]))]])
        ops.append(dict(op='menc', what=what, doseq=doseq, entries=es))
    return groups(ops)

# ---------------------------------------------------------------- escapes
PT = ['/', 'a', 'b/c', ' ', '%20', '%', '%zz', '%e2%82%ac', '\xe9', '\u20ac', '\U0001F600', '?', '#', '[', ']', ';', '=', '&', '+', '~', ':', '@', '!', "'", '"', '<', '>', '\\', '^', '`', '{', '|', '}', '(', ')', '*', ',', '$', '-', '_', '.', '//', '..', '\x00', '\n', '\x7f', '%2f', '%41', '%C3%A9', '\xff', 'path']
def ptext(rng, ctx, esc=True):
    pool = PT + ctx.h['new_strs']
    return ''.join(x for x in (rng.choice(pool) for _ in range(rng.randint(0, 8))) if esc or '%' not in x)
def okesc(t):                                    # Jython's regular expressions refuse some text outside the BMP (unquote of the future library)
    return not ('%' in t and any(ord(c) > 0xffff for c in t)) and plainly_invalid(urllib.parse.unquote_to_bytes(u8(t).encode('latin-1')))
def c25(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    ops = []
    for cp in list(range(256)) + [0x100, 0x7ff, 0x800, 0x20ac, 0xfffd, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]:
        c = chr(cp)
        for b in (False, True):
            u = '=' + (u8(c) if b else c)
            ops += [dict(op='iri', u=u, bytes=b), dict(op='esc', u=u, bytes=b, pct=rng.random() < .5), dict(op='quote', f=rng.choice(['q', 'qp']), u=u, bytes=b)]
        ops.append(dict(op='uri', u='=' + ''.join('%%%02X' % x for x in c.encode('utf-8')), bytes=rng.random() < .5))
        ops.append(dict(op='quote', f=rng.choice(['u', 'up']), u='=x' + ''.join('%%%02x' % x for x in c.encode('utf-8')) + '+', bytes=rng.random() < .5))
    for b in range(128, 256):                    # arbitrary bytes
        ops += [dict(op='iri', u='=a' + chr(b), bytes=True), dict(op='esc', u='=' + chr(b) + '/', bytes=True, pct=True), dict(op='quote', f=rng.choice(['q', 'qp']), u='=' + chr(b), bytes=True)]
    ops += [dict(op='iri', u=None, bytes=False), dict(op='uri', u=None, bytes=False), dict(op='uri', u='=', bytes=True), dict(op='iri', u='=', bytes=True)]
    n = len(ops) + (8000 if big else 700)
    while len(ops) < n:
        t = ptext(rng, ctx)
        u, b = both(rng, t)
        r = rng.random()
        if r < .4: ops.append(dict(op='iri', u=u, bytes=b))
        elif r < .6: ops.append(dict(op='esc', u=u, bytes=b, pct=rng.random() < .5))
        elif r < .7: ops.append(dict(op='quote', f=rng.choice(['q', 'qp']), u=u, bytes=b))
        elif okesc(t):
            if any(ord(c) > 127 for c in t): b, u = False, '=' + t
            ops.append(dict(op='uri', u=u, bytes=b) if rng.random() < .7 else dict(op='quote', f=rng.choice(['u', 'up']), u=u, bytes=b))
    for t in ['', '/', '//', '///', '//a', '/a', 'a//b', '/%2F', '//evil.com/x', '\\\\a', ' //a', '/ /', '//\xe9', '//?', '/\\a'] + ['//' + s for s in ctx.h['new_strs']] + [''.join(p) for k in (1, 2, 3, 4) for p in itertools.product('/ax', repeat=k)]:
        u, b = both(rng, t)
        ops.append(dict(op='leading', u=u, bytes=b))
    n = len(ops) + (5000 if big else 500)
    while len(ops) < n:                           # the path of a request
        path, q = rng.choice(['/', '/p', '/p/q/', '/a%20b', '/%e2%82%ac', '/x:y', '*']), rng.choice(['', '', 'a=1', 'a=%e2%82%ac&b', 'q=a+b', '%41', 'x?y', "a=<b>|^`{}\"\\", '[1]~', 'a/b;c', '%20'])
        t = ptext(rng, ctx)
        if not okesc(t): continue
        ab = rng.random() < .4
        host, scheme = ('h', 'UNKNOWN') if not ab else rng.choice([('example.com', 'http'), ('h', 'https'), ('[::1]', 'http')])
        tgt = ('%s://%s' % (scheme, host) if ab else '') + (path if not ab or path[0] == '/' else '/' + path) + ('?' + q if q else '')
        if ab and path[0] != '/': path = '/' + path
        u, b = both(rng, t, .25)
        enc_ = rng.random() < .65
        if b and not enc_ and any(ord(c) > 127 for c in t): b, u = False, '=' + t
        ops.append(dict(op='path', head='=' + head('GET', tgt, headers=[('Host', 'h')]), path='=' + path, query='=' + q, scheme='=' + scheme, host='=' + host, set=rng.random() < .8, u=u, bytes=b, enc=enc_))
    return groups(ops)

# ---------------------------------------------------------------- tokens
D36 = '0123456789abcdefghijklmnopqrstuvwxyz'
def to36(n):
    s = ''
    while n: n, r = divmod(n, 36); s = D36[r] + s
    return s or '0'
WD = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MO = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
def fmt(kind, d, sec):
    t = '%02d:%02d:%02d' % (sec // 3600, sec // 60 % 60, sec % 60)
    w = WD[d.weekday()]
    if kind == 0: return '%s, %02d %s %04d %s GMT' % (w[:3], d.day, MO[d.month - 1], d.year, t)
    if kind == 1: return '%s, %02d-%s-%02d %s GMT' % (w, d.day, MO[d.month - 1], d.year % 100, t)
    return '%s %s %s %s %04d' % (w[:3], MO[d.month - 1], '%2d' % d.day, t, d.year)
def c27(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    ops = []
    nums = set(range(0, 80)) | {36 ** k + e for k in range(1, 14) for e in (-1, 0, 1)} | {2 ** k + e for k in (7, 8, 15, 16, 31, 32, 53, 62, 63, 64) for e in (-1, 0, 1)} | {10 ** k for k in range(20)} | {n + e for n in ctx.h['new_nums'] for e in (-1, 0, 1)}
    nums |= {rng.randint(0, 10 ** rng.randint(1, 20)) for _ in range(3000 if big else 200)}
    for n in sorted(nums):
        if n < 0: continue
        ops.append(dict(op='b36enc', n='=%d' % n))
        s = to36(n)
        if rng.random() < .4: s = ''.join(rng.choice([c, c.upper()]) for c in s)
        if rng.random() < .2: s = s.rjust(rng.randint(0, 13), '0')
        ops.append(dict(op='b36dec', s='=' + s, bytes=rng.random() < .5))
    for n in (-1, -2, -35, -36, -37, -10 ** 15): ops.append(dict(op='b36enc', n='=%d' % n))
    for s in ['', 'z' * 13, 'z' * 14, '0' * 13, '0' * 14, '1' + '0' * 13, 'a' * 20, 'a b', 'a_b', 'a-b', '1.5', '!', 'a/b', '{', '`', '@', '[', 'a\x00', '\xe9', ':', 'zz~', '0x1f', '1e5', 'a,b', '#', '12$'] + ctx.h['new_strs']:
        b = rng.random() < .5
        if s and (s[0] in '+- \t\n' or s[-1:] in ' \t\n\x0b\x0c\r' or s != s.strip()): continue
        ops.append(dict(op='b36dec', s='=' + s, bytes=b))
    for _ in range(2000 if big else 200):
        s = ''.join(rng.choice(D36 + D36.upper() if rng.random() < .93 else '!_.,:;/@[`{~"#$%&\'()*<=>?^|}') for _ in range(rng.choice([1, 2, 5, 12, 13, 14, 15])))
        ops.append(dict(op='b36dec', s='=' + s, bytes=rng.random() < .5))
    # URL-safe base64
    bs = [''.join(p) for k in (0, 1, 2) for p in itertools.product('\x00\xff\xfb~?>a', repeat=k)] + [chr(i) for i in range(256)] + ['\xfb\xef\xbe' * 3, '\xff' * 7, '\n', 'a\n']
    bs += [''.join(chr(rng.randint(0, 255)) for _ in range(n)) for n in list(range(3, 70)) + lengths(ctx, 1, 3000, [255, 256, 1000])]
    bs += [''.join(chr(rng.randint(0, 255)) for _ in range(rng.randint(1, 30))) for _ in range(2500 if big else 150)]
    for b in bs:
        ops.append(dict(op='b64enc', b='=' + b))
        e = base64.urlsafe_b64encode(b.encode('latin-1')).decode().rstrip('=')
        ops.append(dict(op='b64dec', s='=' + e, bytes=rng.random() < .3))
        if e and rng.random() < .3: ops.append(dict(op='b64dec', s='=' + e[:-1], bytes=False))
    for _ in range(500 if big else 60):
        ops.append(dict(op='b64dec', s='=' + ''.join(rng.choice('ABCxyz019-_') for _ in range(rng.randint(0, 14))), bytes=rng.random() < .4))
    # dates
    E = datetime.date(1970, 1, 1)
    dmin, dmax = (datetime.date(1, 1, 1) - E).days, (datetime.date(9999, 12, 31) - E).days
    days = [0, -1, 1, 364, 365, 11016, 11017, 9075, dmin, dmax, (datetime.date(100, 1, 1) - E).days] + [(datetime.date(y, m, d) - E).days for y in (1900, 1904, 1999, 2000, 2024, 2038, 2069, 2100, 1970, 1969) for m, d in ((1, 1), (2, 28), (3, 1), (12, 31))] + [(datetime.date(y, 2, 29) - E).days for y in (1904, 2000, 2024, 1600, 4)]
    days += [(datetime.date(2023, m, d) - E).days for m in range(1, 13) for d in (1, 9, 10, 28)]
    days += [rng.randint(-40000, 60000) for _ in range(3000 if big else 150)] + [rng.randint(dmin + 40000, dmax) for _ in range(600 if big else 30)]
    for n in days:
        d = E + datetime.timedelta(n)
        sec = rng.choice([0, 86399, 1, 3600, 43200, rng.randint(0, 86399)])
        ops.append(dict(op='date', days=n, sec=sec, float=rng.random() < .3))
        for k in (0, 1, 2):
            if d.year < 100 and k != 1: continue
            if k == 1 and not 1970 <= d.year <= 2069 and rng.random() < .8: continue
            s = fmt(k, d, sec)
            if rng.random() < .15: s = s.replace(MO[d.month - 1], rng.choice([str.upper, str.lower])(MO[d.month - 1]))
            if rng.random() < .1: s = rng.choice(WD)[:3] + s[3:] if k != 1 else s
            ops.append(dict(op='pdate', s='=' + s, bytes=rng.random() < .5, safe=rng.random() < .4))
    good = ['Sun, 06 Nov 1994 08:49:37 GMT', 'Sunday, 06-Nov-94 08:49:37 GMT', 'Sun Nov  6 08:49:37 1994', 'Sun Nov 16 08:49:37 1994']
    for s in good:
        for i in range(len(s) + 1):              # every deletion, doubling and replacement
            for t in (s[:i] + s[i + 1:], s[:i] + s[i:i + 1] * 2 + s[i + 1:], s[:i] + rng.choice('x0 9-:,_GM\t') + s[i + 1:], s[:i] + rng.choice('x0 9-:,') + s[i:], s[:i]):
                ops.append(dict(op='pdate', s='=' + t, bytes=rng.random() < .5, safe=rng.random() < .3))
        for a, b in (('06', '00'), ('06', '31'), ('06', '32'), (' 6', ' 0'), ('16', '31'), ('Nov', 'Foo'), ('Nov', 'NOV'), ('08', '24'), ('08', '23'), (':49', ':60'), (':49', ':59'), (':37', ':60'), (':37', ':61'), (':37', ':59'), ('GMT', 'UTC'), ('GMT', 'gmt'), ('GMT', '+0000'), ('1994', '0000'), ('1994', '9999'), ('-94', '-00'), ('-94', '-69'), ('-94', '-70'), ('-94', '-99'), ('Sun', 'Xyz'), ('Nov', 'Feb'), ('06', '29'), ('06', '30')):
            if a in s: ops.append(dict(op='pdate', s='=' + s.replace(a, b), bytes=rng.random() < .5, safe=rng.random() < .4))
    ops += [dict(op='pdate', s='=' + x, bytes=False, safe=y) for x in ['', ' ', '0', 'now', '1994-11-06T08:49:37Z', ' Sun, 06 Nov 1994 08:49:37 GMT'] + [s + '\n' for s in good] + ctx.h['new_strs'] for y in (False, True)]
    for y in (1900, 2000, 2001, 2004, 2100):
        for m in range(1, 13):
            for d in (28, 29, 30, 31):
                ops.append(dict(op='pdate', s='=Mon, %02d %s %d 00:00:00 GMT' % (d, MO[m - 1], y), bytes=False, safe=rng.random() < .3))
    # entity tags
    TT = ['"', 'a', ',', ' ', 'W/', '*', ';', '""', '"b"', ', ', '=', "'", '"";', '; ', '(', '-', '"b" "c"', '\t', 'w/', '/', '\\', '\xe9', '"a,b"', '""', 'W/"c"']
    words = [''.join(p) for k in range(5) for p in itertools.product(TT[:6], repeat=k)]
    for s in (words if big else rng.sample(words, 500)) + TT + ['"%s", W/"%s"' % (s, s) for s in ctx.h['new_strs']]:
        ops.append(dict(op='etags', s='=' + s, bytes=rng.random() < .5))
        if rng.random() < .7: ops.append(dict(op='qtag', s='=' + s, bytes=rng.random() < .5))
    for _ in range(2000 if big else 250):
        s = ''.join(rng.choice(TT) for _ in range(rng.randint(1, 12)))
        ops.append(dict(op=rng.choice(['etags', 'etags', 'qtag']), s='=' + s, bytes=rng.random() < .5))
    return groups(ops, 12)

# ---------------------------------------------------------------- header values and their kin, called directly
HTOK = ['a', 'B', '=', ';', '"', '\\', ' ', "'", '*', '%41', '\\"', '\\\\', '"x"', '; n=', "*=utf-8''", '\t', '\xe9', ',', '%c3%a9', 'utf-8', '\n']
CHARSETS = ['utf-8', 'UTF-8', 'utf8', 'iso-8859-1', 'latin1', 'us-ascii', 'ascii', '', 'x-unknown', '\xff']
def hquote(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
ENT = ['&', '#', ';', 'x', 'X', '38', '41', 'amp', 'lt', 'quot', 'eacute', 'zzz', '0', '&amp;', '&#', '&#x', '&#255;', '&#256;', '&#0;', '&#00065;', '&#x41;', '&#X6a;', ' ', '&Lt;', '&AMP;', 'thetasym', '&sect;', '\xe9', '&#99999999;', '&#xfffffff;', '&#xg;', '&#1a;', '&;', '&hellip;', '&copy']
def c29(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    ops, ns = [], ctx.h['new_strs']
    H = lambda s: ops.append(dict(op='phead', s='=' + s))
    words = [''.join(p) for k in range(1, 6 if big else 5) for p in itertools.product('a=;"\\ ', repeat=k)]
    for w in (words if big else rng.sample(words, 500)): H(rng.choice(['', 'm;', 'Text/Plain; ']) + w)
    for w in ['', ' ', ';', '=', '; ;', 'A', ' A ', 'a;;b=1', 'a;b', 'a; b = 1 ', 'a; B=1; b=2', 'a; =1', 'a; b="', 'a; b="x', 'a; b=x"', 'a; b="x";c="y;z";d', "a; b*=utf-8''%e2%82%ac%20x", "a; b*=utf-8'en'x", "a; b*=x'y", "a; b*='", "a; b*=''''%41", "a; b*=utf-8''\"%41;\"", "a; b*0=x; b*1=y", "a; b=1; b*=utf-8''2", "a; b*=utf-8''%ff", "a; b*=ascii''%e9", "a; b*=iso-8859-1''%e9", 'a; b="x\\"y"; c="\\\\"; d="\\\\\\"; e=1"', 'a; "b;c"=d', 'a\r\n b; c=d', 'a; b==c', 'a; b="c=d;e=f"', 'a; b="";c=""']: H(w)
    for n in lengths(ctx, 0, 3000, [1, 255, 1024]): H('a; ' + 'b' * n + '=' + 'c;"'[rng.randint(0, 0)] * n); H('x' * n + '; q=' + hquote('"' * min(n, 300)) + '; r=s')
    for n in (1, 10, 60): H('m' + ''.join('; p%d=%d' % (i, i) for i in range(n)))
    for _ in range(2500 if big else 350):
        vals = [''.join(rng.choice(HTOK) for _ in range(rng.choice([0, 1, 1, 2, 4]))) for _ in range(rng.randint(0, 4))]
        s = rng.choice(['form-data', 'Text/HTML', 'a', '', ' x ', 'attachment'])
        for v in vals:
            nm = rng.choice(['name', 'filename', 'a', 'A', 'charset', 'x-1', '', '"', 'b c'] + ns)
            r = rng.random()
            s += rng.choice(['; ', ';', ' ; ', ';\t']) + nm
            if r < .5: s += rng.choice(['=', ' = ']) + hquote(v)
            elif r < .65: s += '*=' + rng.choice(CHARSETS + ns) + "'" + rng.choice(['', 'en']) + "'" + urllib.parse.quote(u8(v).encode('latin-1')) 
            elif r < .8: s += '=' + v
            elif r < .9: s += '*=' + v
        H(s)
    for _ in range(1500 if big else 150): H(''.join(rng.choice(HTOK) for _ in range(rng.randint(0, 14))))
    ops = [o for o in ops if plainly_invalid(urllib.parse.unquote_to_bytes(o['s'][1:].encode('latin-1')))]
    # hosts and ports
    from greq import HOSTS, PORTS
    hp = [h + p for h in HOSTS for p in PORTS] + ['[' + m + ']' for m in ('', ':', '::', '1:', ':1', 'a:b:c', 'g:1', '::1.2', '.:1', '1.:2', ':::')] + ns + [s + ':80' for s in ns]
    hp += [''.join(p) for k in range(1, 5) for p in itertools.product('a.:[1]', repeat=k)]
    for h in (hp if big else rng.sample(hp, 500)): ops.append(dict(op='port', s='=' + h, bytes=not h.isascii() or rng.random() < .6))
    # entities
    for w in ENT + ['&' + c + ';' for c in ('#x', '#X', '#38', '#x26', 'nbsp', 'yuml', 'euro', 'Aacute', 'aacute', 'fnof', 'thetasym', 'a_b', '12', '0x41', '#0x41', '#-1', '#+1', '# 1')] + ['&%s;' % s for s in ns] + ns: ops.append(dict(op='ent', s='=' + w))
    for _ in range(2000 if big else 250): ops.append(dict(op='ent', s='=' + ''.join(rng.choice(ENT) for _ in range(rng.randint(1, 6)))))
    # parameter strings
    QT = ['a', 'b', '=', '&', ';', '+', '%20', '%C3%A9', '%E9', '%', '%4', '%zz', 'a=1', '&a=2', '=', '==', '\xe9', '\u20ac', ' ', '%26', '%3D', '%2B', '%00']
    qs = [''.join(p) for k in range(0, 6) for p in itertools.product('a=&;', repeat=k)]
    qs = (qs if big else rng.sample(qs, 250)) + [''.join(rng.choice(QT) for _ in range(rng.randint(0, 12))) for _ in range(1500 if big else 250)] + ns + ['a=%s&%s=b' % (s, s) for s in ns]
    for q in qs:
        if not okesc(q): continue
        k = q.count('&') + q.count(';') + 1
        ops.append(dict(op='qsl', s='=' + q, blank=rng.random() < .5, cs=rng.choice(['utf8', 'utf8', 'latin1', 'ascii']), limit=rng.choice([-1, -1, k, max(0, k - 1), k + 1, 0, 1, 1000])))
    return groups(ops, 10)
