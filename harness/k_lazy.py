# -*- coding: utf-8 -*-
"""The push-back stream and the chunk iterator."""
from common import *
from request_parser.utils.datastructures import LazyStream, ChunkIter
from request_parser.exceptions.exceptions import InputStreamExhausted

class Producer(object):
    """Gives the pieces and counts the pieces and the bytes given."""
    def __init__(self, it):
        self.it, self.got, self.pulls = it, 0, 0
    def __iter__(self):
        return self
    def next(self):
        r = next(self.it)
        self.got += len(r)
        self.pulls += 1
        return r

class Ending(object):
    """A file object that reports its end by an exception, as the multipart parser's inputs may."""
    def __init__(self, src): self.src = src
    def read(self, n):
        r = self.src.read(n)
        if not r: raise InputStreamExhausted()
        return r

def pieces(data, cuts):
    out = []
    for n in cuts:
        out.append(data[:n])
        data = data[n:]
    return out

def run(case, base):
    data = dec(case['bytes'])
    src = Source(data, case['cuts'], False)
    if case.get('ending'): src = Ending(src)
    ck = case.get('chunk')
    p = Producer(ChunkIter(src, ck) if ck else iter(pieces(data, case['cuts']) if case.get('exact') else list(Source(data, case['cuts'], False))))
    s = LazyStream(p)
    for op in case['ops']:
        o, r = op['op'], {'err': '', 'val': u'='}
        try:
            if o == 'next': r['val'] = enc(next(s))
            elif o == 'read': r['val'] = enc(s.read(op['n']) if op['n'] >= 0 else s.read())
            elif o == 'readline': r['val'] = enc(s.readline(op['n']) if op['n'] >= 0 else s.readline())
            elif o == 'rest': r['val'] = enc(b''.join([x for x in s]))
            elif o == 'unget': s.unget(dec(op['b']))
            elif o == 'close': s.close()
            elif o == 'chunks': r['vals'] = [enc(x) for x in ChunkIter(Ending(Source(data, case['cuts'], False)) if case.get('ending') else Source(data, case['cuts'], False), op['n'])]
        except StopIteration:
            r['err'] = 'Stop'
        except Exception as e:
            r['err'] = category(e)
        r['got'], r['pulls'] = p.got, p.pulls
        r['pos'] = s.tell()
        op['obs'] = r
    return case
