"""Inputs for the traces that do not go through a request object."""
import itertools, json, random
from gbody import *

def lit(codes):
    return '=' + ''.join(chr(x) for x in codes)
def U(kind, ops, **k):
    return dict(kind=kind, ops=ops, **k)

# ---------------------------------------------------------------- push-back stream
def lcase(data, cuts, ops, **k):
    return U('lazy', ops, bytes='=' + data, cuts=cuts or [1], **k)
def c14(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    hs = [h for h in ctx.gen('MC_Lazy', 'Gen_Lazy.cfg')]
    hs = rng.sample(hs, min(len(hs), 9000 if big else 900))
    for h in hs:
        ops = [dict(o, b=lit(o['b'])) if 'b' in o else dict(o) for o in h['ops']]
        out.append(lcase(lit(h['bytes'])[1:], h['cuts'], ops + [{'op': 'rest'}, {'op': 'next'}], exact=True))
    # the same amount, over and over: with and without new data
    for n in (1, 2, 5, 39, 40, 41, 42, 49, 50, 51, 60, 90):
        for k in (1, 2, 3, 17):
            b = 'x' * k
            out.append(lcase('a' * 7, [7], [{'op': 'unget', 'b': '=' + b}] * n + [{'op': 'rest'}]))
            out.append(lcase(b, [k], [{'op': 'next'}, {'op': 'unget', 'b': '=' + b}] * n + [{'op': 'rest'}]))
            out.append(lcase(b * n, [k], [{'op': 'next'}, {'op': 'unget', 'b': '=' + b}, {'op': 'read', 'n': k}] * n + [{'op': 'rest'}]))
            out.append(lcase('ab' * n, [1], [{'op': 'next'}, {'op': 'unget', 'b': '=z' * 1}, {'op': 'read', 'n': 2}] * n))
            out.append(lcase('q' * 30, [30], [{'op': 'unget', 'b': '=' + b}, {'op': 'unget', 'b': '=' + b + 'y'}] * n + [{'op': 'rest'}]))
            out.append(lcase('q' * 30, [30], [{'op': 'read', 'n': 3}, {'op': 'unget', 'b': '=' + 'qqq'[:min(3, k)]}] * n + [{'op': 'rest'}]))
    for n in lengths(ctx, 1, 9000, [1, 16, 1024, 4096, 8192])[: None if big else 14]:
        data = ''.join(chr((i * 31 + n) & 255) for i in range(n))
        for m in (n - 1, n, n + 1):
            if m > 0: out.append(lcase(data, rng.choice([[n], [max(1, n // 2)], [1000, 1], [7]]), [{'op': 'read', 'n': m}, {'op': 'unget', 'b': '=' + data[:m]}, {'op': 'read', 'n': 1}, {'op': 'readline', 'n': -1}, {'op': 'rest'}]))
        out.append(lcase(data, rng.choice([[n], [3, 50], [1]]), [{'op': 'chunks', 'n': rng.choice([1, 2, n, n + 1, max(1, n - 1), 64, 65536])}], ending=rng.random() < .5))
    # large pieces
    for n in [1100, 3000, 20000] + ([70000] if not big else [70000, 131073]):
        data = ''.join(chr((i * 37 + n) & 255) for i in range(n))
        for k in (1, n // 2, n - 1):
            out.append(lcase(data, [n], [{'op': 'read', 'n': k}, {'op': 'unget', 'b': '=' + data[:k]}, {'op': 'close'}, {'op': 'rest'}]))
            out.append(lcase(data + 'tail', [n], [{'op': 'next'}, {'op': 'unget', 'b': '=U' + data}, {'op': 'readline', 'n': -1}, {'op': 'read', 'n': k}, {'op': 'rest'}]))
        if n < 4000:
            for m in (40, 41, 42, 60):
                out.append(lcase(data, [n], [{'op': 'next'}, {'op': 'unget', 'b': '=' + data}] * m + [{'op': 'rest'}]))
    n = len(out) + (6000 if big else 700)
    while len(out) < n:
        data = ''.join(rng.choice(['a', 'b', '\n', '\r\n', '\x00', '\xff', 'ccc']) for _ in range(rng.randint(0, rng.choice([3, 12, 60]))))
        cuts = rcuts(rng, len(data))
        ops = []
        for _ in range(rng.randint(1, 14)):
            r = rng.random()
            if r < .2: ops.append({'op': 'next'})
            elif r < .45: ops.append({'op': 'read', 'n': rng.choice([0, 1, 1, 2, 3, 5, 8, 100, len(data), -1])})
            elif r < .6: ops.append({'op': 'readline', 'n': rng.choice([-1, -1, -1, 0, 1, 2, 5])})
            elif r < .93: ops.append({'op': 'unget', 'b': '=' + ''.join(rng.choice('UV\n') for _ in range(rng.choice([0, 1, 1, 2, 3, 9])))})
            elif r < .96: ops.append({'op': 'close'})
            else: ops.append({'op': 'rest'})
        k = {'chunk': rng.choice([1, 2, 3, 7, 64, 65536])} if rng.random() < .5 else {}
        if k and rng.random() < .5: k['ending'] = True
        out.append(lcase(data, cuts, ops + [{'op': 'rest'}], **k))
    for _ in range(200 if big else 40):
        data = ''.join(rng.choice('abc\n') for _ in range(rng.randint(0, 50)))
        out.append(lcase(data, rcuts(rng, len(data)), [{'op': 'chunks', 'n': rng.randint(1, 20)}], ending=rng.random() < .5))
    return out

# ---------------------------------------------------------------- dictionaries
DK = ['a', 'b', 'c', '', '\xe9', '\u20ac', 'a b', 'A']
DV = ['x', 'y', '', 'z z', '\xe9', '\u20ac\U0001F600', '0', 'x']
DO = [[-100], [-101], [-102], [-103], [-104], [-105], [-106], [-107], [-108]]      # values that are no strings
def dv(v): return '=' + v if isinstance(v, str) else v
def rv(rng): return '=' + rng.choice(DV) if rng.random() < .85 else rng.choice(DO)
def mk(cls, m, mut=True, cs='utf8'):
    return {'op': 'make', 'obj': {'cls': cls, 'mut': mut, 'cs': cs, 'map': [['=' + k, [dv(v) for v in vs]] for k, vs in m]}}
def dcase(ops):
    return U('dict', [dict({'bytes': False}, **(dict({'kwp': []}, **o) if o['op'] == 'update' else o)) for o in ops])
def rmap(rng, n=4):
    ks = rng.sample(DK, rng.randint(0, n))
    return [(k, [rng.choice(DV if rng.random() < .85 else DO) for _ in range(rng.choice([0, 1, 1, 2, 3]))]) for k in ks]
def rdop(rng, slots, news=True):
    """One operation; slots: classes and charsets of the dictionaries made so far."""
    s = rng.randint(1, len(slots)); cls, cs = slots[s - 1]
    k, v = '=' + rng.choice(DK), rv(rng)
    vs = [rv(rng) for _ in range(rng.randint(0, 3))]
    b = {}
    if cls == 'qd' and rng.random() < .35:       # byte strings, also invalid ones
        raw = [x.encode('utf-8').decode('latin-1') if rng.random() < .6 else x for x in ('a', '\xe9', 'b\xff', '\xe9\xe9', 'plain', '\x80x')]
        k, v, vs = '=' + rng.choice(raw), '=' + rng.choice(raw), ['=' + rng.choice(raw) for _ in range(rng.randint(0, 2))]
        b = {'bytes': True}
    o = rng.choice(['set', 'set', 'append', 'append', 'setlist', 'setdefault', 'setlistdefault', 'del', 'pop', 'popitem', 'clear', 'update', 'update', 'item', 'get', 'getlist', 'poke', 'copy', 'copy', 'equal', 'in', 'pickle', 'fromkeys'])
    d = {'op': o, 's': s}
    if o in ('set', 'append', 'setdefault'): d.update(k=k, v=v, **b)
    elif o in ('setlist', 'setlistdefault'): d.update(k=k, vs=vs, **b)
    elif o in ('del', 'item', 'poke', 'in'): d.update(k='=' + rng.choice(DK))
    elif o == 'get': d.update(k='=' + rng.choice(DK), v=rng.choice([None, '=dflt']))
    elif o == 'getlist': d.update(k='=' + rng.choice(DK), vs=rng.choice([[], ['=d1', '=d2']]))
    elif o == 'pop': d.update(k='=' + rng.choice(DK), d=rng.choice([[], ['=dflt']]))
    elif o == 'update':
        if rng.random() < .5: d.update(t=rng.randint(1, len(slots)), pairs=[])
        else:
            ks = rng.sample(DK, rng.randint(0, 3))
            d.update(t=0, pairs=[['=' + x, rv(rng)] for x in ks])
            if b: d.update(pairs=[[k, v]], **b)
            elif rng.random() < .4: d.update(kw=True, pairs=[['=' + x, '=' + rng.choice(DV)] for x in rng.sample(['a', 'b', 'key'], rng.randint(1, 2))])
        if not d.get('kw') and rng.random() < .3: d['kwp'] = [['=' + x, rv(rng)] for x in rng.sample(['a', 'b', 'key'], rng.randint(1, 2))]
        if d.get('bytes'): d.pop('kwp', None)
    elif o == 'copy':
        d['how'] = rng.choice(['copy', 'shallow', 'deep'])
        if len(slots) > 3: return None
        slots.append((cls, cs))
    elif o == 'pickle':
        if cls != 'mvd' or len(slots) > 3: return None
        d['proto'] = rng.choice([0, 1, 2]); slots.append((cls, cs))
    elif o == 'equal': d['t'] = rng.randint(1, len(slots))
    elif o == 'fromkeys':
        if len(slots) > 3: return None
        d = {'op': o, 'vs': ['=' + rng.choice(DK) for _ in range(rng.randint(0, 4))], 'v': '=' + rng.choice(DV), 'mut': rng.random() < .6, 'cs': rng.choice(['utf8', 'latin1'])}
        slots.append(('qd', d['cs']))
    return d
def fix_hist(h):
    ops = [mk(h['cls'], [(lit(k)[1:], [lit(v)[1:] for v in vs]) for k, vs in h['map']], h['mut'])]
    for o in h['ops']:
        o = dict(o)
        for f in ('k', 'v'):
            if f in o: o[f] = lit(o[f])
        for f in ('vs', 'd'):
            if f in o: o[f] = [lit(x) for x in o[f]]
        if o['op'] == 'update': o['pairs'] = []
        ops.append(o)
    return ops
def c17(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    hs = ctx.gen('MC_Dict', 'Gen_Dict.cfg')
    out = [dcase(fix_hist(h)) for h in rng.sample(hs, min(len(hs), 12000 if big else 1300))]
    for k in ctx.h['new_strs'] + ['_mutable', '_data', '__dict__', 'settings', '_encoding', 'encoding']:      # names that might be special
        for cls in ('mvd', 'qd'):
            out.append(dcase([mk(cls, [(k, ['v', k])]), {'op': 'append', 's': 1, 'k': '=' + k, 'v': '=w'}, {'op': 'copy', 's': 1, 'how': 'copy'}, {'op': 'set', 's': 2, 'k': '=' + k, 'v': '=' + k},
                              {'op': 'update', 's': 2, 't': 1, 'pairs': []}] + ([{'op': 'pickle', 's': 2, 'proto': 0}] if cls == 'mvd' else [])))
    for n in lengths(ctx, 1, 3000, [10, 50, 100, 1000])[:10]:      # many values, many keys
        out.append(dcase([mk(rng.choice(['mvd', 'qd']), [('k', ['v%d' % i for i in range(n)])]), {'op': 'append', 's': 1, 'k': '=k', 'v': '=last'}, {'op': 'copy', 's': 1, 'how': rng.choice(['copy', 'deep'])}, {'op': 'update', 's': 1, 't': 2, 'pairs': []}]))
        out.append(dcase([mk(rng.choice(['mvd', 'qd']), [('k%d' % i, ['v']) for i in range(min(n, 300))]), {'op': 'copy', 's': 1, 'how': 'copy'}, {'op': 'equal', 's': 1, 't': 2}]))
    n = len(out) + (6000 if big else 700)
    while len(out) < n:
        slots = [(rng.choice(['mvd', 'mvd', 'qd']), rng.choice(['utf8', 'latin1', 'ascii']))]
        ops = [mk(slots[0][0], rmap(rng), True, slots[0][1])]
        if rng.random() < .4:
            slots.append((rng.choice(['mvd', 'qd']), 'utf8')); ops.append(mk(slots[1][0], rmap(rng)))
        for _ in range(rng.randint(2, 12)):
            o = rdop(rng, slots)
            if o: ops.append(o)
        out.append(dcase(ops))
    return out
MUT = [lambda k: {'op': 'set', 'k': k, 'v': '=n'}, lambda k: {'op': 'del', 'k': k}, lambda k: {'op': 'setlist', 'k': k, 'vs': ['=n', '=m']}, lambda k: {'op': 'setlist', 'k': k, 'vs': []},
       lambda k: {'op': 'setdefault', 'k': k, 'v': '=n'}, lambda k: {'op': 'setlistdefault', 'k': k, 'vs': ['=n']}, lambda k: {'op': 'setlistdefault', 'k': k, 'vs': []}, lambda k: {'op': 'append', 'k': k, 'v': '=n'},
       lambda k: {'op': 'update', 't': 0, 'pairs': [[k, '=n']]}, lambda k: {'op': 'update', 't': 0, 'pairs': [['=a', '=n']], 'kw': True}, lambda k: {'op': 'pop', 'k': k, 'd': []}, lambda k: {'op': 'pop', 'k': k, 'd': ['=n']},
       lambda k: {'op': 'update', 't': 0, 'pairs': []}, lambda k: {'op': 'popitem'}, lambda k: {'op': 'clear'}, lambda k: {'op': 'poke', 'k': k}]
def reqmakes(rng):
    """Read-only dictionaries of parsed requests."""
    def r(what, raw, cls, m): return dict(mk(cls, m, False, 'latin1'), req='=' + raw, what=what)
    mp = mbody([fpart('a', 'x'), fpart('b', 'y'), fpart('a', 'z')])
    dict2 = r('POST', post(mp, 'multipart/form-data; boundary=BB', [('Content-Length', str(len(mp)))]), 'qd', [])
    dict2['obj']['map'] = [['=a', [[-2], [-2]]], ['=b', [[-2]]]]
    return [r('GET', head('GET', '/?a=x&b=y&a=z'), 'qd', [('a', ['x', 'z']), ('b', ['y'])]), r('GET', head('GET', '/?=x&a'), 'qd', [('', ['x']), ('a', [''])]),
            r('POST', post('a=x&b=y&a=z'), 'qd', [('a', ['x', 'z']), ('b', ['y'])]), dict2,
            r('HEADERS', head('GET', '/', headers=[('Host', 'h'), ('a', 'x'), ('b', 'y'), ('a', 'z')]), 'imvd', [('a', ['x', 'z']), ('b', ['y'])]),
            r('HEADERS', head('GET', 'http://g/', headers=[('a', 'x')]), 'imvd', [('a', ['x'])]),
            # nothing in it: files only, nothing sent, a body of another type, a target without a query
            r('POST', mreq(mbody([upart('a', 'n', 'x'), upart('b', 'm', '')])), 'qd', []), r('POST', mreq('--BB--\r\n'), 'qd', []),
            r('POST', mreq(''), 'qd', []), r('POST', post(''), 'qd', []), r('GET', head('GET', '/?&&'), 'qd', [])]
def mreq(body):
    return post(body, 'multipart/form-data; boundary=BB', [('Content-Length', str(len(body)))])
def c18(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    makes = [lambda: mk('qd', [('a', ['x', 'y']), ('b', [])], False), lambda: mk('qd', [], False), lambda: mk('imvd', [('a', ['x', 'y']), ('b', [])], False), lambda: mk('imvd', [], False)]
    makes += [lambda i=i: reqmakes(rng)[i] for i in range(len(reqmakes(rng)))]
    for m in makes:                              # every mutator on every read-only dictionary; on its copy; once mutation is enabled
        cls = m()['obj']['cls']
        for f in MUT:
            for k in ('=a', '=b', '=new'):
                o = dict(f(k), s=1)
                out.append(dcase([m(), o]))
                out.append(dcase([m(), {'op': 'copy', 's': 1, 'how': rng.choice(['copy', 'deep', 'shallow'])}, {'op': 'equal', 's': 1, 't': 2}, dict(f(k), s=2), {'op': 'equal', 's': 1, 't': 2}, o]))
                if cls == 'imvd' or rng.random() < .3:
                    out.append(dcase([m(), {'op': 'enable', 's': 1, 'on': True}, o, dict(rng.choice(MUT)(rng.choice(['=a', '=new'])), s=1), {'op': 'enable', 's': 1, 'on': False}, o]))
    for w in ('default', 'text', 'exc'):
        for meth in ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'set', 'del', 'setslice', 'delslice', 'iadd', 'imul', 'none'):
            for vs in ([], ['=b', '=a'], ['=x']):
                out.append(dcase([{'op': 'ilist', 'm': meth, 'vs': vs, 'warn': w, 'want': '' if meth == 'none' else 'ValueError' if w == 'exc' else 'AttributeError'}]))
    n = len(out) + (3000 if big else 300)
    while len(out) < n:
        cls = rng.choice(['qd', 'imvd'])
        slots = [(cls, 'utf8')]
        ops = [mk(cls, rmap(rng), False) if rng.random() < .6 else rng.choice(reqmakes(rng))]
        cls = ops[0]['obj']['cls']; slots = [(cls, ops[0]['obj']['cs'])]
        if rng.random() < .3: ops.append({'op': 'copy', 's': 1, 'how': rng.choice(['copy', 'deep', 'shallow'])}); slots.append(slots[0])
        if rng.random() < .2: ops.append({'op': 'enable', 's': rng.randint(1, len(slots)), 'on': True})
        for _ in range(rng.randint(2, 9)):
            o = rdop(rng, slots)
            if o and o['op'] != 'pickle': ops.append(o)
        out.append(dcase(ops))
    return out

# ---------------------------------------------------------------- upload handlers
def hscript(rng, calm=.6, chunk=0):
    one = lambda: {'new': rng.choice(['ok', 'ok', 'ok', 'claim', 'skip', 'stop', 'reset']) if rng.random() > calm else rng.choice(['ok', 'ok', 'claim']),
                   'recv': [rng.choice(['pass', 'absorb', 'double', 'empty', 'skip', 'stop', 'reset']) if rng.random() > calm else rng.choice(['pass', 'pass', 'absorb']) for _ in range(rng.choice([1, 1, 2, 3]))],
                   'done': rng.choice(['none', 'obj', 'obj', 'stop', 'reset']) if rng.random() > calm else rng.choice(['obj', 'none'])}
    return {'real': '', 'raw': '', 'chunk': chunk, 'files': [one() for _ in range(rng.choice([1, 2, 3]))], 'end': rng.choice(['', '', '', 'answer']), 'file': rng.random() < .6}
def hreal(kind, chunk=0):
    return {'real': kind, 'raw': '', 'chunk': chunk, 'files': [{'new': 'ok', 'recv': ['pass'], 'done': 'none'}], 'end': '', 'file': False}
def hcase(rng, body, b, hs, **k):
    c = dict(kind='handlers', body='=' + body, ctype='=multipart/form-data; boundary=' + quoteb(b), clen='=%d' % len(body), cuts=rcuts(rng, len(body)), io=rng.random() < .3,
             cs='latin1', duf=-1, dum=-1, fum=100000, hs=hs, ops=[])
    c.update(k)
    c['least'] = min([x['chunk'] for x in c['hs'] if x['chunk']] or [1000000])
    return c
QUIET = {'new': 'ok', 'recv': ['pass'], 'done': 'none'}
def hfix(new='ok', recv=('pass',), done='none', **k):
    d = {'real': '', 'raw': '', 'chunk': 0, 'files': [dict(new=new, recv=list(recv), done=done)], 'end': '', 'file': True}
    d.update(k)
    return d
HP = '--B\r\nContent-Disposition: form-data; name="%s"%s\r\n\r\n%s\r\n'
def c10(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    body = mbody([fpart('a', '1'), upart('f', 'n.txt', 'payload one'), upart('g', 'm.txt', 'second'), fpart('b', '2'), upart('f', 'l.txt', '3rd')])
    acts = [dict(new=n) for n in ('ok', 'claim', 'skip', 'stop', 'reset')] + [dict(recv=r) for r in (['absorb'], ['double'], ['empty'], ['skip'], ['stop'], ['reset'], ['pass', 'skip'], ['pass', 'stop'], ['absorb', 'reset'], ['pass', 'absorb', 'double'])] + \
           [dict(done=d) for d in ('obj', 'stop', 'reset')] + [dict(end='answer'), dict(raw='result')]
    hbody = HP % ('f', '; filename="n"', 'ab') + HP % ('x', '', 'v') + HP % ('g', '; filename="m"', 'c') + '--B--\r\n'
    hs = ctx.gen('MC_Handlers', 'Gen_Handlers.cfg', workers=6)       # the model's chains and reactions
    for h in rng.sample(hs, min(len(hs), 9216 if big else 1000)):
        out.append(hcase(rng, hbody, 'B', [dict(x, chunk=rng.choice([0, 1, 2])) for x in h['hs']]))
    for a in acts:                               # each reaction at each place of a chain of three; on the first file or a later one
        for pos in range(3):
            for done in ('none', 'obj'):
                hs = [hfix(done=done if i else 'none', chunk=rng.choice([0, 4, 4])) for i in range(3)]
                later = {k: v for k, v in a.items() if k in ('new', 'recv', 'done')}
                hs[pos].update({k: v for k, v in a.items() if k in ('end', 'raw')})
                hs[pos]['files'] = [dict(hs[pos]['files'][0]) for _ in range(rng.choice([0, 0, 1, 2]))] + [dict(hs[pos]['files'][0], **later)] + ([dict(hs[pos]['files'][0], done='obj')] if rng.random() < .5 else [])
                out.append(hcase(rng, body, 'BB', hs))
    for a, b in itertools.product(acts, acts):   # pairs of reactions
        if rng.random() < (1 if big else .4):
            hs = [hfix(chunk=rng.choice([0, 1, 3, 5])), hfix(), hfix(done='obj')][:rng.choice([2, 3])]
            for i, x in ((0, a), (rng.randint(1, len(hs) - 1), b)):
                hs[i].update({k: v for k, v in x.items() if k in ('end', 'raw')})
                hs[i]['files'][0].update({k: v for k, v in x.items() if k in ('new', 'recv', 'done')})
            out.append(hcase(rng, body, 'BB', hs))
    for kinds in ([], ['mem'], ['temp'], ['conv'], ['mem', 'temp'], ['temp', 'mem'], ['mem', 'conv'], ['conv', 'temp'], ['', 'mem', 'temp'], ['mem', ''], ['', 'conv'], ['conv', '']):
        for fum in (0, 3, 10, 14, len(body) - 1, len(body), 10000):
            hs = [hreal(x, rng.choice([0, 0, 4])) if x else hfix(recv=[rng.choice(['pass', 'pass', 'double', 'absorb'])], done=rng.choice(['none', 'obj']), chunk=rng.choice([0, 5])) for x in kinds]
            out.append(hcase(rng, body, 'BB', hs, fum=fum))
    for cl in ('', '0', '-1', '-5', 'x', '5', ' 7 ', '00', '+3', '99999'):
        for ct in ('multipart/form-data; boundary=BB', 'multipart/mixed;boundary="BB"', 'Multipart/x; BOUNDARY=BB', 'text/plain; boundary=BB', '', 'multipart/form-data', 'multipart/form-data; boundary=', 'application/multipart/; boundary=BB', 'multipart; boundary=BB'):
            if rng.random() < .5: out.append(hcase(rng, body, 'BB', [hfix(raw=rng.choice(['', 'result']), done='obj')], clen='=' + cl, ctype='=' + ct))
    evil = 'Content-Disposition: form-data; name="evil"\r\n\r\nboo'      # what is left of a file that is skipped is no part of its own
    for pre in ('', ' ', '\r\n', 'x' * 30, '   \n', ' ' * 40, 'x' * 1030 + '\r\n', ' ' * 1100 + '\r\n', '\r\n' * 600, 'y' * 70000):
        for a in (dict(new='skip'), dict(recv=['skip']), dict(recv=['pass', 'skip'])):
            ch = rng.choice([1, 2, 7, 64]) if len(pre) < 900 else rng.choice([16, 100, 4096]) if len(pre) < 9000 else 16384
            hs = [hfix(chunk=ch), hfix(done='obj')]
            hs[rng.choice([0, 1])]['files'][0].update(a)
            out.append(hcase(rng, mbody([upart('f', 'n.txt', 'x' * rng.choice([0, 3]) + pre + evil + '\r\n' + evil), fpart('z', 'end')]), 'BB', hs, cuts=[1 << 20] if len(pre) > 900 else rcuts(rng, 200)))
    for n in lengths(ctx, 1, 140000, [1000, 1024, 5000, 65535, 65536, 65537, 131072])[-14:]:     # long uploads: pieces
        d = ('0123456789abcdef' * (n // 16 + 1))[:n]
        ch = rng.choice([1000, 4096, 65536] if n > 3000 else [16, 100, 1000])
        out.append(hcase(rng, mbody([upart('f', 'n', d), fpart('z', 'end')]), 'BB', [hfix(chunk=ch), hfix(done='obj')], cuts=[1 << 20], io=False))
        if n < 8000: out.append(hcase(rng, mbody([upart('f', 'n', rb64(rng, d), te='base64'), fpart('z', 'end')]), 'BB', [hfix(chunk=rng.choice([16, 100, 1000])), hfix(done='obj')], cuts=[1 << 20], io=False))
    n = len(out) + (5000 if big else 500)
    while len(out) < n:
        b, bd = rmulti(rng, ctx, b64=.15, skip=.08)
        if rng.random() < .7:
            bd = mbody([(upart(rng.choice(['f', 'g']), rng.choice(FNAMES), rdata(rng, ctx, b)) if rng.random() < .75 else rpart(rng, ctx, b)) for _ in range(rng.randint(1, 4))], b)
        k = rng.choice([1, 2, 2, 3, 4])
        calm = rng.choice([.5, .8, .9, 1])
        ch = rng.choice([0, 0, 1, 2, 3, 7, 16, 64])
        hs = [hscript(rng, calm, ch if rng.random() < .6 else rng.choice([0, 5, 9])) if rng.random() < .88 else hreal(rng.choice(['mem', 'temp', 'conv']), ch) for _ in range(k)]
        if rng.random() < .03: hs[rng.randint(0, k - 1)]['raw'] = 'result' if hs[0]['real'] == '' else ''
        for x in hs:
            if x['real']: x['raw'] = ''
        for i, x in enumerate(hs):               # a built-in handler has to be told of a file whose chunks it gets
            if x['real']:
                for y in hs[:i]:
                    for z in y['files']:
                        if z['new'] == 'claim': z['new'] = 'ok'
        if rng.random() < .1 and 'base64' not in bd.lower(): bd = bd[:rng.randint(0, len(bd))]
        kw = {}
        if rng.random() < .2: kw['duf'] = rng.randint(0, 3)
        if rng.random() < .2: kw['dum'] = rng.randint(0, 60)
        if rng.random() < .3: kw['explicit'] = True
        out.append(hcase(rng, bd, b, hs, fum=rng.choice([0, 10, 100, len(bd), 100000]), cs=rng.choice(['latin1', 'utf8']), **kw))
    return out

# ---------------------------------------------------------------- uploaded files
FDATA = ['', 'a', '\n', '\r', '\r\n', 'a\n', 'a\r', 'a\r\n', '\r\r\n', '\n\r', '\r\n\r\n', '\n\n', '\r\r', 'ab\rcd\nef\r\ngh', 'a\r\nb', 'no end\nlast', '\x0b\x0c\x1c\x1d\x1e\x85', 'x\x85y\nz', '\x00\xff', 'line one\r\nline two\r\n']
def fspec(rng, name=None, pieces=None, **k):
    d = dict(name='=' + (rng.choice(FNAMES) if name is None else name), ct='=' + rng.choice(['text/plain', 'image/png', '', 'a/b']), charset=rng.choice([[], [], ['=utf-8']]),
             extra=rng.choice([None, [], [['=x', '=y']], [['=a', '=1'], ['=charset', '=utf-8']]]), te=rng.choice([[], [], ['=8bit']]), pieces=['=' + p for p in pieces])
    d.update(k)
    return d
def split(rng, data, n=None):
    out, i = [], 0
    while i < len(data):
        k = n or rng.randint(1, max(1, min(len(data), rng.choice([2, 5, 50]))))
        out.append(data[i:i + k]); i += k
    return out
def fcase(h, files, ops, fum=1000, cl=0):
    return U('file', ops, h=h, files=files, fum=fum, cl=cl)
def mkf(n):
    return [{'op': 'make', 'f': i + 1} for i in range(n)]
def fop(rng, f, n):
    o = rng.choice(['read', 'read', 'readline', 'readlines', 'chunks', 'lines', 'lines', 'seek', 'open', 'ask'])
    d = {'op': o, 'f': f}
    if o == 'read': d['n'] = rng.choice([-1, 0, 1, 2, 3, n, n + 1, max(0, n - 1)])
    elif o in ('chunks', 'lines', 'ask'): d['n'] = rng.choice([0, 1, 2, 3, 4, max(1, n), n + 1, max(1, n - 1)])
    elif o == 'seek': d['n'] = rng.randint(0, n)
    return d
def c19(ctx):
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    words = [''.join(w) for k in range(5 if big else 4) for w in itertools.product('a\r\n', repeat=k)]
    for w in words:                              # every short content, line by line in chunks of every size
        for h in ('temp', 'mem') if big else (rng.choice(['temp', 'mem', 'conv', 'simple', 'dict']), 'temp'):
            ops = mkf(1) + [x for n in range(1, len(w) + 2) for x in ({'op': 'lines', 'f': 1, 'n': n}, {'op': 'chunks', 'f': 1, 'n': n}, {'op': 'ask', 'f': 1, 'n': n})]
            out.append(fcase(h, [fspec(rng, 'n', split(rng, w))], ops + [{'op': 'readlines', 'f': 1}, {'op': 'open', 'f': 1}, {'op': 'readlines', 'f': 1}, {'op': 'lines', 'f': 1, 'n': 0}]))
    for n in lengths(ctx, 1, 140000, [1, 1000, 8191, 8192, 65535, 65536, 65537, 131072, 131073])[None if big else -16:] + [150000]:
        d = ''.join(rng.choice(['\r', '\n', '\r\n', 'x', 'some words ', '0123456789abcdef' * 200]) for _ in range(n // 300 + 3))
        d = (d * (n // len(d) + 1))[:n]
        if n > 65536: d = d[:65535].replace('\r', '-').replace('\n', '=') + rng.choice(['\r\n', '\rx', 'x\n', '\n\r', '\r\r']) + d[65537:].replace('\r', '-')
        for h in ('temp', 'conv'):
            out.append(fcase(h, [fspec(rng, 'n', split(rng, d, rng.choice([n, 65536, 30000])))], mkf(1) + [{'op': 'ask', 'f': 1, 'n': rng.choice([0, n, max(1, n - 1)])}, {'op': 'chunks', 'f': 1, 'n': rng.choice([0, 1000, max(1, n - 1)]) if n != 150000 else 100000}, {'op': 'lines', 'f': 1, 'n': rng.choice([0, 5000])},
                       {'op': 'seek', 'f': 1, 'n': n // 2}, {'op': 'read', 'f': 1, 'n': -1}, {'op': 'close', 'f': 1}, {'op': 'ask', 'f': 1, 'n': 0}, {'op': 'open', 'f': 1}], fum=rng.choice([n - 1, n, 10, 200000])))
    for d in FDATA:
        for h in ('temp', 'mem', 'conv', 'simple', 'dict'):
            n = len(d)
            end = rng.choice([[{'op': 'close', 'f': 1}], [{'op': 'with', 'f': 1}], [{'op': 'close', 'f': 1}, {'op': 'close', 'f': 1}]])
            ops = mkf(1) + [fop(rng, 1, n) for _ in range(4)] + end + [{'op': 'ask', 'f': 1, 'n': 0}, {'op': rng.choice(['read', 'lines', 'chunks', 'readline', 'open']), 'f': 1, 'n': 1}, {'op': 'open', 'f': 1}, {'op': 'ask', 'f': 1, 'n': 0}]
            out.append(fcase(h, [fspec(rng, rng.choice(['n', '', '/etc/passwd', 'bait.txt', 'bait.txt', 'x.tar.gz']), split(rng, d))], ops))
    n = len(out) + (6000 if big else 500)
    while len(out) < n:
        k = rng.choice([1, 1, 2, 3])
        ds = [rng.choice(FDATA) if rng.random() < .4 else ''.join(rng.choice(['a', 'bc', '\r', '\n', '\r\n', '\x85', '\xff']) for _ in range(rng.randint(0, 12))) for _ in range(k)]
        ops, closed = mkf(k), set()
        for _ in range(rng.randint(1, 12)):
            f = rng.randint(1, k)
            if f in closed: ops.append(rng.choice([{'op': 'ask', 'f': f, 'n': 0}, {'op': 'open', 'f': f}, {'op': 'close', 'f': f}, {'op': 'read', 'f': f, 'n': 1}]))
            elif rng.random() < .08: ops.append({'op': rng.choice(['close', 'with']), 'f': f}); closed.add(f)
            else: ops.append(fop(rng, f, len(ds[f - 1])))
        out.append(fcase(rng.choice(['temp', 'mem', 'conv', 'conv', 'simple', 'dict']), [fspec(rng, rng.choice(['n', '', 'a b', 'bait.txt', 'caf\xc3\xa9']) if rng.random() < .5 else None, split(rng, d)) for d in ds], ops, fum=rng.choice([0, 1, 3, 10, 1000])))
    return out
def c11d(ctx):
    """The built-in handlers called directly: sequences of files and chunks around the limit."""
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    for fum in (0, 1, 2, 3) if not big else range(6):
        for sizes in itertools.product(range(4), repeat=2):
            ps = [split(rng, 'abcdefgh'[:x], rng.choice([1, 2, 5])) for x in sizes]
            out.append(fcase('conv', [fspec(rng, None, p) for p in ps], mkf(2) + [{'op': 'over'}] + [{'op': 'read', 'f': i, 'n': -1} for i in (1, 2)] + [{'op': 'ask', 'f': i, 'n': 0} for i in (2, 1)], fum=fum))
    for fum, cl in itertools.product((0, 1, 5, 100), (0, 1, 4, 5, 6, 99, 100, 101)):
        for h in ('mem', 'temp'):
            ds = ['abc', '', 'x' * rng.randint(0, 9)]
            out.append(fcase(h, [fspec(rng, None, split(rng, d)) for d in ds], mkf(3) + [{'op': 'over'}] + ([{'op': 'read', 'f': i, 'n': -1} for i in (1, 2, 3)] if h == 'temp' or cl <= fum else []), fum=fum, cl=cl))
    n = len(out) + (3000 if big else 250)
    while len(out) < n:
        fum = rng.choice([0, 1, 5, 10, 37, 100])
        ds = [''.join(rng.choice(['a', '\r\n', 'bcd', '\x00', '\xfe']) for _ in range(rng.choice([0, 1, 3, 10, 30]))) for _ in range(rng.randint(1, 4))]
        ops = mkf(len(ds)) + [{'op': 'over'}] + [{'op': 'read', 'f': rng.randint(1, len(ds)), 'n': -1} for _ in range(3)] + [{'op': 'ask', 'f': i + 1, 'n': 0} for i in range(len(ds))]
        out.append(fcase('conv', [fspec(rng, None, split(rng, d)) for d in ds], ops, fum=fum))
    return out
def c12d(ctx):
    """Names given to uploaded-file objects directly."""
    rng, big = ctx.rng, ctx.tier == 'thorough'
    names = list(FNAMES) + ['', '/', '//', 'a/', '/a', 'a//b', '.', '..', '../', '../..', '/..', 'a.', '.a', '..a', 'a.b.c', 'x\\\\y', 'C:a', '&amp;/x', ' ', ' a ', 'a\x00b', '\xff/\xfe']
    for n in (1, 200, 254, 255, 256, 257, 300, 509, 511, 600):
        for e in ('', '.', '.t', '.' + 'e' * 10, '.' + 'e' * 253, '.' + 'e' * 254, '.' + 'e' * 255, '.' + 'e' * 300):
            names += ['n' * n + e, 'd' * 5 + '/' + 'n' * n + e, '.' + 'n' * n + e, '.' * 3 + 'n' * n, 'n.' * (n // 2) + e]
    for _ in range(1500 if big else 150):
        names.append(''.join(rng.choice(['/', '.', '..', 'a', 'bc', ' ', '\\\\', '~', '\xe9', 'x' * 100, '.' + 'y' * 120]) for _ in range(rng.randint(0, 8))))
    return [fcase(rng.choice(['simple', 'dict', 'mem', 'temp', 'conv']), [fspec(rng, x, ['d'])], mkf(1) + [{'op': 'ask', 'f': 1, 'n': 0}]) for x in names]

def c28(ctx):
    """Long files through handlers of small chunk sizes: how much is handed over at a time, how far the source is read."""
    rng, big = ctx.rng, ctx.tier == 'thorough'
    out = []
    def blob(n):
        kind = rng.choice(['x', 'dash', 'crlf', 'near', 'mix'])
        unit = {'x': 'x', 'dash': '-', 'crlf': '\r\n', 'near': '\r\n--BO', 'mix': rng.choice(['a\r\n', '--', '\n-', '\r', 'text '])}[kind]
        return (unit * (n // len(unit) + 1))[:n]
    def hs(chunk, real):
        if real: return [hreal(rng.choice(['temp', 'conv', 'mem']), chunk)]
        return [hfix(recv=[rng.choice(['pass', 'absorb'])], done='none', chunk=rng.choice([chunk, 0, chunk * 2])), hfix(done='obj', chunk=chunk)][rng.choice([0, 0, 1]):]
    sizes = [(n, c) for c in (1, 2, 7, 50, 1000, 1024, 4096) for n in (0, 1, c - 1, c, c + 1, 3 * c + 1, 1023, 1024, 1025, 5000, 20000) if n <= 40 * c + 1100 and n >= 0]
    sizes += [(n, c) for n in lengths(ctx, 1, 100000, []) for c in (256, 4096)][:20] + [(200000, 0), (150000, 65536), (100000, 16384)]
    def chain(c):
        near = [hfix(recv=[rng.choice(['pass', 'absorb'])], chunk=k) for k in rng.choice([[c, c * 64], [c * 64, c], [c * 64, c, 0], [0, c * 100, c], [c * 100, c * 64, c], [c, c * 50, c * 90]])]
        near[-1]['files'][0]['done'] = 'obj'
        return near
    sizes = [(n, c, None) for n, c in sizes] + [(n, c, chain) for c in (1, 3, 50, 64, 300) for n in (9000, 20000) if n <= 150 * c + 9000] * (3 if big else 2)
    for n, c, ch in sizes * (4 if big else 1):
        parts = [upart('f', 'n.txt', blob(n)) if rng.random() < .8 else upart('f', 'n.txt', rb64(rng, blob(n)), te='base64')]
        if rng.random() < .6: parts.insert(0, fpart('a', blob(rng.choice([0, 5, 900, 3000]))))
        if rng.random() < .6: parts += [upart('g', 'm.txt', blob(rng.choice([0, 10, 2000]))), fpart('b', 'v')]
        body = mbody(parts, 'BOUND')
        out.append(hcase(rng, body, 'BOUND', ch(c) if ch else hs(c, rng.random() < .4), cuts=rng.choice([[1 << 20], [1 << 20], [max(1, c)], [3, 700]]), fum=rng.choice([0, 1000, 1000000]), duf=rng.choice([-1, 10])))
    return out
