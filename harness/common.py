# -*- coding: utf-8 -*-
"""Encoding of observations; sources; categories of errors."""
import sys, os, threading, shutil
from io import BytesIO

from request_parser.conf.settings import Settings, InvalidDirectory
from request_parser.exceptions.exceptions import (
    SuspiciousOperation, SuspiciousMultipartForm, TooManyFieldsSent, RequestDataTooBig)
from request_parser.http import request as R
from request_parser.http.multipartparser import MultiPartParserError

TEXT = type(u'')
NONE = [-1]

def enc(x):
    """None -> [-1]; a string -> "=" + its bytes or code points; numbers -> their decimal digits."""
    if x is None:
        return NONE
    if isinstance(x, TEXT):
        return u'=' + x
    if isinstance(x, str):
        return u'=' + x.decode('latin-1')
    if isinstance(x, bool):
        return [1] if x else [0]
    if isinstance(x, (int, long)):
        return u'=' + str(x)
    return [-2]

def dec(b):
    return b[1:].encode('latin-1')

def udec(t):
    return t[1:]

def category(e):
    if isinstance(e, R.InvalidHttpRequest):
        return 'Invalid' if 400 in e.args else 'Invalid-without-400'
    if isinstance(e, R.NoHostFoundException): return 'NoHost'
    if isinstance(e, R.RequestHeaderParseException): return 'HeaderNotParsed'
    if isinstance(e, R.RawPostDataException): return 'RawPost'
    if isinstance(e, MultiPartParserError): return 'Multipart'
    if isinstance(e, TooManyFieldsSent): return 'TooMany'
    if isinstance(e, RequestDataTooBig): return 'TooBig'
    if isinstance(e, SuspiciousOperation): return 'Suspicious'
    if isinstance(e, R.UnreadablePostError): return 'Unreadable'
    if isinstance(e, InvalidDirectory): return 'InvalidDirectory'
    if isinstance(e, UnicodeDecodeError): return 'Decode'
    if isinstance(e, IOError): return 'IOError'
    if isinstance(e, AttributeError): return 'AttributeError'
    if isinstance(e, KeyError): return 'KeyError'
    if isinstance(e, ImportError): return 'ImportError'
    if isinstance(e, ValueError): return 'ValueError'
    if isinstance(e, TypeError): return 'TypeError'
    return 'Other-' + type(e).__name__

class Boom(IOError):
    pass
BOOM = (5, 'boom')

class Source(object):
    """Gives out the bytes in pieces of the given sizes (used cyclically; as an iterator, empty ones too); optionally fails at the end."""
    def __init__(self, data, cuts, fail, once=False):
        self.data, self.pos, self.cuts, self.i, self.fail, self.once = data, 0, cuts if cuts and any(cuts) else [len(data) or 1], 0, fail, once
        self.failed = False
    def __iter__(self):
        return self
    def _end(self):
        if self.fail and not (self.once and self.failed):
            self.failed = True
            raise Boom(*BOOM)
    def _piece(self, n=None, blank=False):
        if self.pos >= len(self.data):
            self._end()
            return None if blank else b''
        k = 0
        while not k:
            k = self.cuts[self.i % len(self.cuts)]
            self.i += 1
            if not k and blank:
                return b''
        if n is not None and n >= 0:
            k = min(k, n)
        r = self.data[self.pos:self.pos + k]
        self.pos += len(r)
        return r
    def next(self):
        r = self._piece(blank=True)
        if r is None:
            raise StopIteration()
        return r
    __next__ = next
    def read(self, n=-1):
        if n is None or n < 0:
            out = []
            while True:
                r = self._piece()
                if not r:
                    return b''.join(out)
                out.append(r)
        return self._piece(n) if n else b''
    def close(self):
        pass

def source(s):
    if s.get('none'): return None
    data = dec(s['b'])
    if s.get('io') and not s.get('fail'):
        return BytesIO(data)
    return Source(data, s.get('cuts'), bool(s.get('fail')), bool(s.get('once')))

def begin(case):
    return None

def hang(case):
    case['hang'] = True
    return case

_lock = threading.Lock()
_n = [0]
def scratch_dir(base):
    _lock.acquire()
    try:
        _n[0] += 1
        d = os.path.join(base, 'u%d' % _n[0])
    finally:
        _lock.release()
    os.mkdir(d)
    return d

CHARSETS = {'utf8': 'utf-8', 'latin1': 'ISO-8859-1', 'ascii': 'us-ascii'}
def settings(cfg, updir):
    d = {Settings.Key.FILE_UPLOAD_DIR: updir}
    if 'mhs' in cfg: d[Settings.Key.MAX_HEADER_SIZE] = cfg['mhs']
    if 'fum' in cfg: d[Settings.Key.FILE_UPLOAD_MAX_MEMORY] = cfg['fum']
    if 'dum' in cfg: d[Settings.Key.DATA_UPLOAD_MAX_MEMORY] = cfg['dum'] if cfg['dum'] >= 0 else None
    if 'duf' in cfg: d[Settings.Key.DATA_UPLOAD_MAX_FIELDS] = cfg['duf'] if cfg['duf'] >= 0 else None
    if 'cs' in cfg: d[Settings.Key.DEFAULT_CHARSET] = CHARSETS[cfg['cs']]
    s = Settings(d)
    mode, chunk = cfg.get('mode', 'conv'), cfg.get('chunk', 0)
    if mode != 'conv' or chunk:
        s.FILE_UPLOAD_HANDLERS = handler_names(mode, chunk)
    return s
def handler_names(mode, chunk):
    return ['vhandlers.H_%s_%d' % (m, chunk) for m in {'conv': ['conv'], 'temp': ['temp'], 'mem': ['mem'], 'memtemp': ['mem', 'temp'], 'none': []}[mode]]
FIELDS = ['FILE_UPLOAD_TEMP_DIR', 'MAX_HEADER_SIZE', 'FILE_UPLOAD_MAX_MEMORY_SIZE', 'DATA_UPLOAD_MAX_MEMORY_SIZE',
          'DATA_UPLOAD_MAX_NUMBER_FIELDS', 'DEFAULT_CHARSET', 'FILE_UPLOAD_HANDLERS']
def frozen(s):
    return [repr(getattr(s, f, None)) for f in FIELDS]

# handler classes with a given chunk size, importable by name
import imp
from request_parser.files import uploadhandler as UH
class _Handlers(object):
    __path__ = []
    BASE = {'conv': UH.ConvenientFileUploadHandler, 'temp': UH.TemporaryFileUploadHandler, 'mem': UH.MemoryFileUploadHandler}
    def __getattr__(self, name):
        if not name.startswith('H_'):
            raise AttributeError(name)
        _, kind, chunk = name.split('_')
        attrs = {'chunk_size': int(chunk)} if int(chunk) else {}
        cls = type(name, (self.BASE[kind],), attrs)
        setattr(self, name, cls)
        return cls
sys.modules['vhandlers'] = _Handlers()
