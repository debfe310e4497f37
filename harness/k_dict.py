# -*- coding: utf-8 -*-
"""Multi-value dictionaries, query dictionaries, immutable lists."""
import copy, pickle
from common import *
from request_parser.utils.datastructures import MultiValueDict, ImmutableMultiValueDict, ImmutableList
from request_parser.http.request import QueryDict

EMPTY = [-3]
OBJS = [(-100, 0), (-101, 1), (-102, False), (-103, True), (-104, ()), (-105, {}), (-106, 2.5), (-107, 0.0), (-108, {'k': 'v'})]
def val(x):
    for n, o in OBJS:
        if type(x) is type(o) and x == o and not (n == -105 and 'data' in x): return [n]
    return EMPTY if isinstance(x, list) and not x else enc(x)
def udec(x):
    """A value: text or one of the objects."""
    return copy.copy(dict(OBJS)[x[0]]) if isinstance(x, list) else x[1:]
def vals(l):
    return [val(x) for x in l] if isinstance(l, (list, tuple)) else [[-4]]
def arg(x, b):
    if x is None: return None
    return dec(x) if b else udec(x)

CLS = {'mvd': MultiValueDict, 'imvd': ImmutableMultiValueDict, 'qd': QueryDict}
SET = [None]
def from_request(op):
    q = R.HttpRequest(BytesIO(dec(op['req'])), SET[0])
    q.parse()
    return {'GET': q.GET, 'POST': q.POST, 'HEADERS': q.META.get('REQUEST_HEADERS')}[op['what']]
def make(d):
    if d['cls'] == 'qd':
        o = QueryDict(SET[0], mutable=True, encoding=CHARSETS[d['cs']])
        for k, l in d['map']:
            o.setlist(udec(k), [udec(x) for x in l])
        o._mutable = d['mut']
        return o
    m = [(udec(k), [udec(x) for x in l]) for k, l in d['map']]
    o = CLS[d['cls']](dict(m) if d.get('asdict') else m)
    if d['cls'] == 'imvd' and d['mut']: o._mutable = True
    return o

def view(o):
    ks = list(o.keys())
    return {'lists': [[enc(k), vals(l)] for k, l in o.lists()],
            'acc': [{'k': enc(k), 'item': val(o[k]), 'list': vals(o.getlist(k)), 'get': val(o.get(k)), 'in': k in o} for k in ks],
            'items': [[enc(k), val(x)] for k, x in o.items()], 'values': [val(x) for x in o.values()],
            'dict': [[enc(k), val(x)] for k, x in o.dict().items()], 'len': len(o),
            'nontext': sum(1 for k, l in o.lists() for x in [k] + list(l) if isinstance(x, str)),
            'cls': {MultiValueDict: 'mvd', ImmutableMultiValueDict: 'imvd', QueryDict: 'qd'}.get(type(o), 'other')}

def ilist(op, r):
    vs = [udec(x) for x in op['vs']]
    w = {'default': None, 'text': 'no', 'exc': ValueError('no')}[op['warn']]
    l = ImmutableList(vs) if w is None else ImmutableList(vs, warning=w)
    m = op['m']
    try:
        if m == 'append': l.append(u'x')
        elif m == 'extend': l.extend([u'x'])
        elif m == 'insert': l.insert(0, u'x')
        elif m == 'pop': l.pop()
        elif m == 'remove': l.remove(vs[0] if vs else u'x')
        elif m == 'sort': l.sort()
        elif m == 'reverse': l.reverse()
        elif m == 'set': l[0] = u'x'
        elif m == 'del': del l[0]
        elif m == 'setslice': l[0:1] = [u'x']
        elif m == 'delslice': del l[0:1]
        elif m == 'iadd': l += [u'x']
        elif m == 'imul': l *= 2
        elif m == 'none': pass
    finally:
        r['ret'] = vals(l)

def run(case, base):
    SET[0] = Settings({Settings.Key.FILE_UPLOAD_DIR: base, 'DATA_UPLOAD_MAX_FIELDS': None})
    slots = []
    for op in case['ops']:
        o, r = op['op'], {'err': '', 'ret': NONE}
        d = slots[op['s'] - 1] if op.get('s') else None
        b = op.get('bytes', False)
        try:
            if o == 'make': slots.append(from_request(op) if op.get('req') else make(op['obj']))
            elif o == 'set': d[arg(op['k'], b)] = arg(op['v'], b)
            elif o == 'del': del d[udec(op['k'])]
            elif o == 'item': r['ret'] = val(d[udec(op['k'])])
            elif o == 'get': r['ret'] = val(d.get(udec(op['k']), arg(op['v'], 0)) if op['v'] is not None or op.get('x') else d.get(udec(op['k'])))
            elif o == 'getlist':
                r['ret'] = vals(d.getlist(udec(op['k']), [udec(x) for x in op['vs']]) if op['vs'] else d.getlist(udec(op['k'])))
            elif o == 'poke':
                l = d.getlist(udec(op['k']))
                l.append(u'poked'); l.append(u'more'); l[0:1] = []
                for k, ls in list(d.copy().lists()): ls.append(u'poked')
            elif o == 'setlist': d.setlist(arg(op['k'], b), [arg(x, b) for x in op['vs']])
            elif o == 'setdefault': r['ret'] = val(d.setdefault(arg(op['k'], b), arg(op['v'], b)))
            elif o == 'setlistdefault': r['ret'] = vals(d.setlistdefault(arg(op['k'], b), [arg(x, b) for x in op['vs']]) if op['vs'] or op.get('x') else d.setlistdefault(arg(op['k'], b)))
            elif o == 'append': d.appendlist(arg(op['k'], b), arg(op['v'], b))
            elif o == 'update':
                kwp = dict((udec(k).encode('ascii'), udec(x)) for k, x in op['kwp'])
                if op['t']: d.update(slots[op['t'] - 1], **kwp)
                elif op.get('kw'): d.update(**dict((udec(k).encode('ascii'), udec(x)) for k, x in op['pairs']))
                else: d.update(dict((arg(k, b), arg(x, b)) for k, x in op['pairs']), **kwp)
            elif o == 'pop':
                x = d.pop(udec(op['k']), *[arg(y, 0) for y in op['d']])
                r['ret'] = vals(x) if isinstance(x, list) else val(x)
            elif o == 'popitem':
                r['key'] = NONE
                k, x = d.popitem()
                r['key'], r['ret'] = enc(k), vals(x)
            elif o == 'clear': d.clear()
            elif o == 'copy':
                slots.append({'copy': lambda: d.copy(), 'shallow': lambda: copy.copy(d), 'deep': lambda: copy.deepcopy(d)}[op['how']]())
            elif o == 'pickle': slots.append(pickle.loads(pickle.dumps(d, op['proto'])))
            elif o == 'enable': d._mutable = bool(op['on'])
            elif o == 'equal': r['eq'] = bool(d == slots[op['t'] - 1]) and not bool(d != slots[op['t'] - 1])
            elif o == 'in': r['eq'] = udec(op['k']) in d
            elif o == 'fromkeys': slots.append(QueryDict.fromkeys([udec(x) for x in op['vs']], udec(op['v']), mutable=op['mut'], encoding=CHARSETS[op['cs']]))
            elif o == 'ilist': ilist(op, r)
            else: raise AssertionError(o)
        except Exception as e:
            r['err'] = category(e)
        r['views'] = [view(x) for x in slots]
        op['obs'] = r
    return case
