# -*- coding: utf-8 -*-
"""Requests: every call on one or several HttpRequest objects, with a full view of the request after each."""
import os, threading
from common import *

def params_view(d):
    strs, dicts, weird = [], [], 0
    for key, values in d.lists():
        if values and all(isinstance(v, dict) for v in values):
            out = []
            for v in values:
                if set(v) != set(['data', 'content-type', 'transfer-encoding', 'content-type-extra']):
                    weird += 1
                out.append({'data': enc(v.get('data')), 'ct': enc(v.get('content-type')), 'te': enc(v.get('transfer-encoding')),
                            'extra': [[enc(a), enc(b)] for a, b in sorted((v.get('content-type-extra') or {}).items())]})
            dicts.append([enc(key), out])
        elif values and all(isinstance(v, (str, TEXT)) for v in values):
            strs.append([enc(key), [enc(v) for v in values]])
        else:
            weird += 1
    return strs, dicts, weird

def opt(x):
    return [] if x is None else [enc(x)]

def file_view(f, updir):
    if f.closed:
        return {'closed': True, 'name': enc(f.name), 'place': 'gone'}
    disk = hasattr(f, 'temporary_file_path')
    f.seek(0)
    data = f.read()
    f.seek(0)
    size = f.size
    place = 'mem'
    if disk:
        p = f.temporary_file_path()
        place = 'disk' if os.path.dirname(os.path.realpath(p)) == os.path.realpath(updir) and os.path.isfile(p) else 'elsewhere'
        if place == 'disk':
            fh = open(p, 'rb')
            on = fh.read()
            fh.close()
            if on != data:
                place = 'differs'
    return {'closed': False, 'name': enc(f.name), 'size': size if isinstance(size, (int, long)) else -2, 'len': len(f), 'data': enc(data),
            'ct': enc(f.content_type), 'charset': opt(f.charset),
            'extra': [[enc(a), enc(b)] for a, b in sorted((f.content_type_extra or {}).items())],
            'te': opt(f.transfer_encoding), 'place': place}

def value(op):
    return None if op['v'] is None or op['v'] == NONE else dec(op['v']) if op.get('bytes') else udec(op['v'])

def charset_of(name):
    try:
        return {u'\xe9': 'utf8', u'\xc3\xa9': 'latin1'}.get(b'\xc3\xa9'.decode(name), 'other')
    except UnicodeDecodeError:
        return 'ascii'

class Req(object):
    def __init__(self, cfg, s, base, shared=None):
        self.updir = scratch_dir(base) if shared is None else shared[1]
        self.settings = settings(cfg, self.updir) if shared is None else shared[0]
        self.before = None if self.settings is None else frozen(self.settings)
        src = source(s) if s is not None else None
        self.req = R.HttpRequest(src) if self.settings is None else R.HttpRequest(src, self.settings)
        if cfg.get('explicit') and self.settings is not None:      # handlers set by the caller stay for every body
            if not hasattr(self.settings, 'made'):
                self.settings.made = [UH.load_handler(h, self.req) for h in self.settings.FILE_UPLOAD_HANDLERS]
            self.req.upload_handlers = self.settings.made

    def view(self, uri):
        q = self.req
        v = {}
        try:
            m = q.META
            hs = m.get('REQUEST_HEADERS')
            v['query'] = enc(m.get('QUERY_STRING'))
            v['headers'] = [] if hs is None else [[enc(k), [enc(x) for x in vs]] for k, vs in hs.lists()]
            for f, a in (('method', 'method'), ('scheme', 'scheme'), ('host', 'host'), ('port', 'port'), ('path', 'path'),
                         ('proto', 'protocol_info'), ('ctype', 'content_type')):
                v[f] = enc(getattr(q, a))
            v['getters'] = bool(enc(q.get_path()) == (v['path'] if q.path is not None else u'=') and enc(q.get_method()) == v['method'] and enc(q.get_scheme()) == v['scheme'] and enc(q.get_host()) == v['host']
                                and enc(q.get_protocol_info()) == v['proto']
                                and enc(q.get_port()) == (v['port'] if q.port is not None else u'=None'))
            v['secure'] = bool(q.is_secure())
            v['ajax'] = bool(q.is_ajax()) if hs is not None else False
            v['hasuri'] = bool(uri) and v['path'] != NONE
            v['fullpath'] = enc(q.get_full_path()) if v['hasuri'] else u'='
            v['uri'] = enc(q.get_uri()) if v['hasuri'] else u'='
            v['slash'] = enc(q.get_full_path(force_append_slash=True)) if v['hasuri'] else u'='
            v['rawuri'] = enc(q.get_uri(raw=True)) if v['hasuri'] else u'='
            v['rawpath'] = enc(q.get_full_path(raw=True)) if v['hasuri'] else u'='
            v['repr'] = enc(repr(q)) if v['hasuri'] or v['method'] == NONE else u'='
            v['plain'] = bool(q.is_plain_text())
            v['cs'] = charset_of(q.encoding)
            v['get'], d, w1 = params_view(q.GET)
            v['post'], v['mpost'], w2 = params_view(q.POST)
            v['weird'] = w1 + w2 + len(d)
            v['files'] = []
            seen = set()
            for k, fs in q.FILES.lists():
                out = []
                for f in fs:
                    o = file_view(f, self.updir)
                    if o['place'] == 'disk':
                        p = f.temporary_file_path()
                        if p in seen: o['place'] = 'shared'
                        seen.add(p)
                    out.append(o)
                v['files'].append([enc(k), out])
            v['ndir'] = len(os.listdir(self.updir))
            v['settings'] = self.settings is None or frozen(self.settings) == self.before
        except Exception as e:
            v = {'viewerr': category(e) + ' ' + repr(e)[:200]}
        return v

    def do(self, op, streams):
        q = self.req
        o = op['op']
        res = {'err': '', 'val': u'=', 'args': True}
        try:
            if o == 'head': q.parse_request_header()
            elif o == 'pbody': q.parse_request_body()
            elif o == 'parse': q.parse()
            elif o == 'body': res['val'] = enc(q.body())
            elif o == 'read': res['val'] = enc(q.read(op['n']) if op['n'] >= 0 else q.read())
            elif o == 'readline': res['val'] = enc(q.readline(op['n']) if op.get('n', -1) >= 0 else q.readline())
            elif o == 'lines': res['lines'] = [enc(x) for x in q]
            elif o == 'xreadlines': res['lines'] = [enc(x) for x in q.xreadlines()]
            elif o == 'readlines': res['lines'] = [enc(x) for x in q.readlines()]
            elif o == 'stream': q.stream = source(streams[op['s'] - 1])
            elif o == 'bstream': q.body_stream = source(streams[op['s'] - 1])
            elif o == 'enc':
                q.encoding = CHARSETS[op['cs']]
            elif o == 'scheme': q.set_scheme(value(op))
            elif o == 'path': q.set_path(value(op)) if op['safe'] else q.set_path(value(op), encode_safely=False)
            elif o == 'set': setattr(q, op['f'], value(op))
            elif o == 'handlers':
                hs = [UH.load_handler(n, q) for n in handler_names(op['mode'], op['chunk'])]
                q.upload_handlers = hs
                res['args'] = q.upload_handlers is hs
            elif o == 'poke':      # the caller adds to the parameters of the content types
                extras = [x.get('content-type-extra') for _, l in q.POST.lists() for x in l if isinstance(x, dict)]
                extras += [f.content_type_extra for _, l in q.FILES.lists() for f in l]
                for x in extras:
                    if isinstance(x, dict): x['poked'] = b'yes'
                    else: res['args'] = False
            elif o == 'close':
                fs = [f for _, l in q.FILES.lists() for f in l]
                paths = [f.temporary_file_path() for f in fs if hasattr(f, 'temporary_file_path')]
                q.close()
                res['allclosed'] = all(f.closed for f in fs)
                res['gone'] = not any(os.path.exists(p) for p in paths)
            else:
                raise AssertionError(o)
        except Exception as e:
            res['err'] = category(e)
            if res['err'] in ('Unreadable', 'IOError'):
                res['args'] = e.args == BOOM
            if res['err'].startswith('Other') or res['err'] in ('TypeError', 'AttributeError'):
                res['detail'] = repr(e)[:300]
        except:
            res['err'] = 'Other-java'
            res['detail'] = str(sys.exc_info()[1])[:300]
        return res

def run(case, base):
    streams = case['streams']
    shared = None
    if case.get('shared'):
        d = scratch_dir(base)
        shared = (None if case['shared'] == 'default' else settings(case['cfgs'][0], d), d)
    defaults = frozen(Settings.default())
    reqs = []
    for i, cfg in enumerate(case['cfgs']):
        s = case['init'][i]
        reqs.append(Req(cfg, streams[s - 1] if s else None, base, shared))
    def step(op):
        r = reqs[op['r'] - 1]
        res = r.do(op, streams)
        res['snap'] = r.view(op.get('uri'))
        op['obs'] = res
    if case.get('threads'):
        ts = []
        for i in range(len(reqs)):
            mine = [op for op in case['ops'] if op['r'] == i + 1]
            def go(mine=mine):
                for op in mine: step(op)
            ts.append(threading.Thread(target=go))
        for t in ts: t.start()
        for t in ts: t.join()
    else:
        for op in case['ops']:
            step(op)
    case['defaults'] = frozen(Settings.default()) == defaults
    for r in reqs:
        try: r.req.close()
        except Exception: pass
    return case
