"""Settings: what is given, the state of the upload directory, handler names."""
from gbody import *
D = [['=@/d', 'dir', '='], ['=@/full', 'dir', '='], ['=@/full/k', 'file', '=keep'], ['=@/full/acdr423x.tmp', 'file', '=mine'], ['=@/full/sub', 'dir', '='],
     ['=@/f', 'file', '=x'], ['=@/l', 'link', '=@/full'], ['=@/lf', 'link', '=@/f'], ['=@/gone', 'link', '=@/nowhere'], ['=@/c', 'link', '=@/c'],
     ['=@/a b', 'dir', '='], ['=%/~', 'dir', '='], ['=%/~/r', 'dir', '='], ['=/dev/null', 'null', '='], ['=/proc/self/task', 'ro', '=']]
DIRS = ['@/d', '@/d/', '@/d//', '@//d', '@/./d', '@/d/.', '@/d/new', '@/d/new/', '@/new', '@/full', '@/full/', '@/full/sub', '@/full/sub/../x', '@/l', '@/l/', '@/l/sub', '@/l/fresh', '@/a b', '@/a b/c d', '@/new/../d',
        '~', '~/', '~/r', '~/r/', '~/new', '~/r/new', '~/./r', '@', '@/' + 'n' * 255, '@/.hidden', '@/%41', '@/full/x.tmp', '@/back\\slash']
BADD = ['@/f', '@/f/', '@/f/x', '@/lf', '@/lf/x', '@/gone', '@/gone/', '@/gone/x', '@/c', '@/c/x', '@/no/such', '@/d/no/such/', '@/full/k', '@/full/k/x', '/dev/null', '/dev/null/x', '/proc/self/task', '/proc/self/task/x', '/no/such/dir',
        '@/' + 'n' * 256, '~/no/such', '@/full/acdr423x.tmp']
HN = 'request_parser.files.uploadhandler.'
GOOD = [HN + n for n in ('ConvenientFileUploadHandler', 'MemoryFileUploadHandler', 'TemporaryFileUploadHandler', 'FileUploadHandler')]
BADN = ['x', '', HN + 'Nope', HN[:-1] + 'z.MemoryFileUploadHandler', 'nope.X', 'request_parser.nope', HN + 'memoryfileuploadhandler', HN, HN + 'MemoryFileUploadHandler.x', ' ' + HN + 'MemoryFileUploadHandler',
        HN + 'MemoryFileUploadHandler ', 'MemoryFileUploadHandler', 'request_parser.MemoryFileUploadHandler', 'uploadhandler.MemoryFileUploadHandler', HN.replace('.', '/') + 'X', 'os.nothing', 'django.core.files.uploadhandler.MemoryFileUploadHandler']
NUMS = ['0', '1', '2', '15', '16', '17', '100', '1024', '4096', '4097', '31457280', '5242880', '2147483648', '-1']
def val(rng, ctx, f):
    if f == 'dir': return ['text' if rng.random() < .5 else 'bytes', '=' + rng.choice(DIRS + BADD[:8])]
    r = rng.random()
    if f == 'cs' and r < .8: return ['text', '=' + rng.choice(['utf-8', 'ascii', 'ISO-8859-1', 'x-none', '', 'latin-1'] + ctx.h['new_strs'])]
    if r < .15: return ['none', '=']
    if r < .2: return ['true', '=']
    if r < .25: return ['false', '=']
    if r < .32: return ['text', '=' + rng.choice(['', '7', 'x'])]
    return ['int', '=' + str(rng.choice(NUMS + [str(n) for n in ctx.h['new_nums']]))]
FS = ['dir', 'mhs', 'fum', 'dum', 'duf', 'cs']
def bop(rng, ctx, fs):
    return dict(op='build', given=[[f] + val(rng, ctx, f) for f in fs], presence=rng.random() < .3)
def scase(rng, ops):
    return dict(kind='set', dirs=D, ops=ops)
def hop(rng, s):
    return dict(op='handlers', s=s, names=[rng.choice(GOOD[:3] if rng.random() < .85 else BADN) for _ in range(rng.choice([0, 1, 1, 2, 3]))])
def c20(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    subsets = [[f for i, f in enumerate(FS) if n >> i & 1] for n in range(1, 64)]
    for fs in subsets * (6 if big else 2):           # every combination of keys
        out.append(scase(rng, [dict(op='default', presence=False), bop(rng, ctx, fs), bop(rng, ctx, rng.choice(subsets)), dict(op='default', presence=rng.random() < .4)]))
    for f in FS[1:]:                                  # every value for every key
        for k, v in [('int', '=' + n) for n in NUMS] + [('none', '='), ('true', '='), ('false', '='), ('text', '='), ('text', '=utf-8')]:
            out.append(scase(rng, [dict(op='build', given=[[f, k, v]], presence=False), dict(op='build', given=[[g, 'int', '=7'] for g in FS[1:] if g != f], presence=False)]))
    for d in DIRS + BADD + ['@/' + s for s in ctx.h['new_strs'] if s and '/' not in s and '\0' not in s and s not in ('.', '..') and all(31 < ord(c) < 127 for c in s)]:
        for kind in ('text', 'bytes'):
            b = dict(op='build', given=[['dir', kind, '=' + d]], presence=kind == 'text')
            out.append(scase(rng, [b, dict(b, given=b['given'] + [['duf', 'int', '=3']])]))
    for d in (DIRS + BADD[:12]) * (5 if big else 1):  # threads at the same time
        n = rng.choice([2, 3, 4, 8])
        r = lambda x: dict(op='race', given=[['dir', 'text', '=' + x]], dufs=['=%d' % (i + 5) for i in range(n)])
        out.append(scase(rng, [r(d)] + [r(rng.choice(DIRS)) for _ in range(4)] + [r('@/m%d' % i) for i in range(4)]))
    out.append(scase(rng, [dict(op='race', given=[['cs', 'text', '=utf-8']], dufs=['=%d' % i for i in range(8)])]))
    for n in GOOD + BADN:
        out.append(scase(rng, [dict(op='load', name=n), dict(op='default', presence=False), dict(op='default', presence=False), dict(op='handlers', s=1, names=[GOOD[1], n, GOOD[0]][:rng.choice([2, 3])])]))
    for _ in range(3000 if big else 250):             # histories
        ops, n = [dict(op='default', presence=False), dict(op='build', given=[['mhs', 'int', '=9']], presence=False)], 2
        for _ in range(rng.randint(2, 8)):
            r = rng.random()
            if r < .35: ops.append(bop(rng, ctx, rng.choice(subsets)))
            elif r < .45: ops.append(dict(op='default', presence=False))
            elif r < .7:
                f = rng.choice(FS[1:])
                k, v = val(rng, ctx, f)
                ops.append(dict(op='alter', s=rng.randint(1, 2), f=f, kind=k, v=v))
            elif r < .85: ops.append(hop(rng, rng.randint(1, 2)))
            else: ops.append(dict(op='load', name=rng.choice(GOOD + BADN)))
        out.append(scase(rng, ops))
    return out
