# -*- coding: utf-8 -*-
"""Functions without state: redirect checks, escapes, encoders, tokens; one call (or a round trip) per operation."""
from common import *
from request_parser.utils import http as H, encoding as E

CS = {'utf8': 'utf-8', 'latin1': 'iso-8859-1', 'ascii': 'us-ascii'}

def arg(x, as_bytes=False):
    if x is None: return None
    return dec(x) if as_bytes else udec(x)

def lists(d):
    return [[enc(k), [enc(v) for v in vs]] for k, vs in d.lists()]

def safe(op):
    hs, how = op['hosts'], op['how']
    b = op['bytes']
    hosts = None if how == 'none' else arg(hs[0], b) if how == 'one' else (set if how == 'set' else list)(arg(h, b) for h in hs)
    return {'ret': bool(H.is_safe_url(arg(op['u'], b), hosts, op['https']) if op['https'] else H.is_safe_url(arg(op['u'], b), hosts))}
def domain(op):
    return {'ret': bool(H.is_same_domain(arg(op['host'], op['bytes']), arg(op['pattern'], op['bytes'])))}
def leading(op):
    return {'val': enc(H.escape_leading_slashes(arg(op['u'], op['bytes'])))}
def iri(op):
    return {'val': enc(E.iri_to_uri(arg(op['u'], op['bytes'])))}
def uri(op):
    return {'val': enc(E.uri_to_iri(arg(op['u'], op['bytes'])))}
def esc(op):
    p = arg(op['u'], op['bytes'])
    return {'val': enc(E.escape_uri_path(p) if op['pct'] else E.escape_uri_path(p, encode_percent=False))}
def path(op):
    q = R.HttpRequest(BytesIO(dec(op['head'])), Settings.default())
    q.parse_request_header()
    if op['set']:
        q.set_path(arg(op['u'], op['bytes'])) if op['enc'] else q.set_path(arg(op['u'], op['bytes']), encode_safely=False)
    r = {}
    for name, slash, raw in (('full', False, False), ('slash', True, False), ('raw', False, True), ('rawslash', True, True)):
        r[name] = enc(q.get_full_path(force_append_slash=slash, raw=raw))
    r['uri'], r['rawuri'] = enc(q.get_uri()), enc(q.get_uri(raw=True))
    return r
def query(cs):
    return Settings({Settings.Key.DEFAULT_CHARSET: CS[cs], Settings.Key.DATA_UPLOAD_MAX_FIELDS: None})
def qd(op):
    s = query(op['cs'] if not op['arg'] else 'latin1')
    kw = {'encoding': CS[op['cs']]} if op['arg'] else {}
    d = R.QueryDict(s, mutable=True, **kw)
    for k, vs in op['map']:
        d.setlist(udec(k), [udec(v) for v in vs])
    if op['copy']: d = d.copy()
    e = d.urlencode(udec(op['safe'])) if op['safe'] != '=' else d.urlencode()
    return {'val': enc(e), 'back': lists(R.QueryDict(s, e, **kw)), 'kept': lists(d)}
def reparse(op):
    s = query(op['cs'])
    d = R.QueryDict(s, arg(op['u'], op['bytes']))
    r = {'first': lists(d), 'val': u'=', 'second': []}
    try:
        e = d.urlencode()
    except UnicodeEncodeError:
        r['err'] = 'Encode'
        return r
    r.update(val=enc(e), second=lists(R.QueryDict(s, e)))
    return r
def atom(a):
    t, v = a
    return None if t == 'none' else udec(v) if t == 'text' else dec(v) if t == 'bytes' else int(udec(v)) if t == 'int' else True
def menc(op):
    entries = []
    for k, how, vs in op['entries']:
        vs = [atom(v) for v in vs]
        entries.append((atom(k), vs[0] if how == 'one' else tuple(vs) if how == 'tuple' else iter(vs) if how == 'iter' else vs))
    what = op['what']
    arg = dict(entries) if what == 'dict' else entries if what == 'pairs' else MultiValueDict(entries)
    return {'val': enc(H.urlencode(arg, doseq=True) if op['doseq'] else H.urlencode(arg))}
def b36enc(op):
    return {'val': enc(H.int_to_base36(int(udec(op['n']))))}
def b36dec(op):
    return {'val': enc(H.base36_to_int(arg(op['s'], op['bytes'])))}
def b64enc(op):
    return {'val': enc(H.urlsafe_base64_encode(dec(op['b'])))}
def b64dec(op):
    return {'val': enc(H.urlsafe_base64_decode(arg(op['s'], op['bytes'])))}
def date(op):
    n = op['days'] * 86400 + op['sec']
    return {'val': enc(H.http_date(float(n) if op['float'] else n))}
def pdate(op):
    s = arg(op['s'], op['bytes'])
    n = H.parse_http_date_safe(s) if op['safe'] else H.parse_http_date(s)
    if n is None: return {'none': True, 'days': 0, 'sec': 0}
    d, s = divmod(n, 86400)
    return {'none': False, 'days': int(d), 'sec': int(s)}
def etags(op):
    return {'vals': [enc(x) for x in H.parse_etags(arg(op['s'], op['bytes']))]}
def qtag(op):
    return {'val': enc(H.quote_etag(arg(op['s'], op['bytes'])))}
def quote(op):
    f = {'q': H.urlquote, 'qp': H.urlquote_plus, 'u': H.urlunquote, 'up': H.urlunquote_plus}[op['f']]
    return {'val': enc(f(arg(op['u'], op['bytes'])))}

def phead(op):
    main, params = parse_header(dec(op['s']))
    return {'main': enc(main), 'params': [[enc(k), enc(v)] for k, v in params.items()]}
def port(op):
    h, p = R.split_domain_port(arg(op['s'], op['bytes']))
    return {'host': enc(h), 'port': enc(p)}
def ent(op):
    return {'val': enc(unescape_entities(dec(op['s'])))}
def qsl(op):
    kw = {}
    if op['limit'] != -1: kw['fields_limit'] = op['limit']
    if op['blank']: kw['keep_blank_values'] = True
    if op['cs'] != 'utf8': kw['encoding'] = CS[op['cs']]
    return {'pairs': [[enc(k), enc(v)] for k, v in H.limited_parse_qsl(udec(op['s']), **kw)]}

from request_parser.http.multipartparser import parse_header
from request_parser.utils.text import unescape_entities
from request_parser.utils.datastructures import MultiValueDict
OPS = dict((f.__name__, f) for f in (safe, domain, leading, iri, uri, esc, path, qd, reparse, menc, b36enc, b36dec, b64enc, b64dec, date, pdate, etags, qtag, quote, phead, port, ent, qsl))

def run(case, base):
    for op in case['ops']:
        r = {'err': ''}
        try:
            r.update(OPS[op['op']](op))
        except Exception as e:
            r['err'] = category(e)
            r['detail'] = repr(e)[:300]
        op['obs'] = r
    return case
