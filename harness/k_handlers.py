# -*- coding: utf-8 -*-
"""The multipart parser with scripted upload handlers: every call they get, and what comes out."""
from common import *
from k_req import params_view, opt
from request_parser.http.multipartparser import MultiPartParser

class Recorder(object):
    def __init__(self, case, base):
        self.ops, self.src = [], source({'b': case['body'], 'cuts': case['cuts'], 'io': case.get('io')})
        if case.get('io'):
            src = self.src
            self.tell = lambda: src.tell()
        else:
            self.tell = lambda: self.src.pos
        self.f = 0
        self.objs = {}          # id -> (handler, file, data seen)
        self.keep = []
        self.open = {}
    def log(self, op, h, **k):
        self.ops.append(dict(k, op=op, h=h, pos=self.tell()))

class FileThing(object):
    def __init__(self): self.closed = False
    def close(self): self.closed = True

class Result(tuple):
    """A result is any pair; being true in a condition is not asked of it."""
    def __nonzero__(self): return False

class Obj(object):
    """What a handler gives for a finished file."""
    def __init__(self, file): self.file = file

def act(a):
    if a == 'claim': raise UH.StopFutureHandlers()
    if a == 'skip': raise UH.SkipFile()
    if a == 'stop': raise UH.StopUpload()
    if a == 'reset': raise UH.StopUpload(connection_reset=True)

def pick(l, i):
    return l[min(i, len(l)) - 1]

def new_args(r, h, field_name, file_name, content_type, content_length, charset, extra, te):
    r.log('new', h, name=enc(field_name), file=enc(file_name), ct=enc(content_type), clen=opt(content_length), charset=opt(charset),
          extra=[[enc(a), enc(b)] for a, b in sorted((extra or {}).items())], te=opt(te))

class Scripted(UH.FileUploadHandler):
    def __init__(self, r, h, script, case):
        UH.FileUploadHandler.__init__(self, None)
        self.r, self.h, self.script, self.case, self.calls, self.at = r, h, script, case, 0, 0
        self.chunk_size = script['chunk'] or None
    def handle_raw_input(self, input_data, META, content_length, boundary, settings, encoding=None):
        self.r.log('raw', self.h, args=bool(input_data is self.r.src and META is self.r.meta and content_length == int(dec(self.case['clen'])) and isinstance(boundary, str)
                                            and boundary and self.case['ctype'].encode('latin-1').find(boundary) > 0 and settings is self.r.settings and encoding == self.r.encoding))
        if self.script['raw']: return Result((('P', self.h), ('F', self.h)))
    def now(self):
        return pick(self.script['files'], self.r.f)
    def new_file(self, field_name, file_name, content_type, content_length, charset=None, content_type_extra=None, transfer_encoding=None):
        if self.h == 1: self.r.f += 1
        new_args(self.r, self.h, field_name, file_name, content_type, content_length, charset, content_type_extra, transfer_encoding)
        if self.script['file']:
            self.file = FileThing()
            self.r.open[(self.h, self.r.f)] = self.file
        act(self.now()['new'])
    def receive_data_chunk(self, raw_data, start):
        self.r.log('recv', self.h, data=enc(raw_data), start=start)
        if self.at != self.r.f: self.at, self.calls = self.r.f, 0
        self.calls += 1
        a = pick(self.now()['recv'], self.calls)
        act(a)
        return {'pass': raw_data, 'absorb': None, 'double': raw_data + raw_data, 'empty': b''}[a]
    def file_complete(self, file_size):
        self.r.log('done', self.h, size=file_size)
        a = self.now()['done']
        act(a)
        if a == 'obj':
            t = self.r.open.get((self.h, self.r.f))      # its own of this file, if it was told of it
            o = Obj(t) if self.r.f % 2 else t or Obj(None)
            self.r.objs[id(o)] = (self.h, self.r.f, None)
            self.r.keep.append(o)
            return o
    def upload_complete(self):
        self.r.log('upload', self.h)
        return 'answer' if self.script['end'] else None

def real(cls, r, h, script, case):
    class Real(cls):
        def handle_raw_input(self, *a, **k):
            x = cls.handle_raw_input(self, *a, **k)
            r.log('raw', h, args=True)
            return x
        def new_file(self, *a, **k):
            if h == 1: r.f += 1
            new_args(r, h, *a, **k)
            self.seen, self.at = [], r.f
            return cls.new_file(self, *a, **k)
        def receive_data_chunk(self, raw_data, start):
            r.log('recv', h, data=enc(raw_data), start=start)
            if getattr(self, 'at', 0) != r.f: self.seen, self.at = [], r.f
            self.seen.append(raw_data)
            self.inside = True
            try: return cls.receive_data_chunk(self, raw_data, start)
            finally: self.inside = False
        def file_complete(self, size):
            if not getattr(self, 'inside', False):
                r.log('done', h, size=size)
            o = cls.file_complete(self, size)
            if o is not None and not getattr(self, 'inside', False):
                r.objs[id(o)] = (h, r.f, b''.join(self.seen))
                r.keep.append(o)
            return o
        def upload_complete(self):
            r.log('upload', h)
            return cls.upload_complete(self)
    Real.chunk_size = script['chunk'] or None
    return Real(None)

def run(case, base):
    updir = scratch_dir(base)
    s = settings({'fum': case['fum'], 'dum': case['dum'], 'duf': case['duf'], 'cs': case['cs']}, updir)
    r = Recorder(case, base)
    r.settings = s
    r.encoding = CHARSETS[case['cs']] if case.get('explicit') else s.DEFAULT_CHARSET
    r.meta = {}
    if case['ctype'] != '=': r.meta['Content-Type'] = dec(case['ctype'])
    if case['clen'] != '=': r.meta['Content-Length'] = dec(case['clen'])
    hs = []
    for i, sc in enumerate(case['hs']):
        hs.append(real({'mem': UH.MemoryFileUploadHandler, 'temp': UH.TemporaryFileUploadHandler, 'conv': UH.ConvenientFileUploadHandler}[sc['real']], r, i + 1, sc, case) if sc['real']
                  else Scripted(r, i + 1, sc, case))
    res = {'err': '', 'result': 0, 'post': [], 'files': []}
    try:
        p = MultiPartParser(r.meta, r.src, hs, s, r.encoding) if case.get('explicit') else MultiPartParser(r.meta, r.src, hs, s)
        post, files = p.parse()
        if isinstance(post, tuple):
            res['result'] = post[1] if post[0] == 'P' and files == ('F', post[1]) else -1
        else:
            strs, dicts, weird = params_view(post)
            if strs or weird: res['result'] = -2
            res['post'] = dicts
            def one(o):
                h, f, data = r.objs.get(id(o), (0, 0, None))
                ok = True
                if isinstance(o, UH.InMemoryUploadedFile) or isinstance(o, UH.TemporaryUploadedFile):
                    ok = not o.closed and o.read() == data and o.size == len(data)
                elif isinstance(o, FileThing): ok = not o.closed
                elif isinstance(o.file, FileThing): ok = not o.file.closed
                return [h, f, bool(ok)]
            res['files'] = [[enc(k), [one(o) for o in l]] for k, l in files.lists()]
    except Exception as e:
        res['err'] = category(e)
        if res['err'].startswith('Other') or res['err'] in ('TypeError', 'AttributeError'): res['detail'] = repr(e)[:300]
    res['open'] = [[h, f] for (h, f), t in sorted(r.open.items()) if not t.closed]
    r.log('end', 0, **res)
    case['ops'] = r.ops
    return case
