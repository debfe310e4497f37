# -*- coding: utf-8 -*-
"""Uploaded files made by the built-in handlers (called directly) or from given content, and how they read back."""
from common import *
from k_req import opt
from request_parser.files.uploadedfile import UploadedFile, InMemoryUploadedFile, TemporaryUploadedFile, SimpleUploadedFile

HANDLER = {'mem': UH.MemoryFileUploadHandler, 'temp': UH.TemporaryFileUploadHandler, 'conv': UH.ConvenientFileUploadHandler}

def extra_of(x):
    return [[enc(k), enc(v)] for k, v in sorted(x.items())] if x is not None else NONE

def make(case, h, spec, s):
    name, ct = dec(spec['name']), dec(spec['ct'])
    data = [dec(p) for p in spec['pieces']]
    if case['h'] == 'simple':
        return SimpleUploadedFile(name, b''.join(data), ct) if spec['ct'] != '=' else SimpleUploadedFile(name, b''.join(data)), {}
    if case['h'] == 'dict':
        d = {'filename': name, 'content': b''.join(data)}
        if spec['ct'] != '=': d['content-type'] = ct
        return SimpleUploadedFile.from_dict(d), {}
    extra = dict((dec(k), dec(v)) for k, v in spec['extra']) if spec['extra'] is not None else None
    claim, passed = False, []
    try:
        h.new_file('field', name, ct, None, dec(spec['charset'][0]) if spec['charset'] else None, extra, dec(spec['te'][0]) if spec['te'] else None)
    except UH.StopFutureHandlers:
        claim = True
    n = 0
    for p in data:
        x = h.receive_data_chunk(p, n)
        passed.append(x == p if x is not None else False)
        n += len(p)
    return h.file_complete(n), {'claim': claim, 'passed': passed}

def run(case, base):
    updir = scratch_dir(base)
    s = settings({'fum': case['fum']}, updir)
    h = HANDLER[case['h']](None) if case['h'] in HANDLER else None
    if h is not None:
        h.handle_raw_input(None, {}, case['cl'], b'--B', s, s.DEFAULT_CHARSET)
    fs = []
    for op in case['ops']:
        o, r = op['op'], {'err': ''}
        try:
            if o == 'make':
                r.update(kind='none', claim=False, passed=[])
                f, more = make(case, h, case['files'][op['f'] - 1], s)
                fs.append(f)
                r.update(more)
                if f is not None:
                    r['kind'] = 'temp' if isinstance(f, TemporaryUploadedFile) else 'mem' if isinstance(f, InMemoryUploadedFile) else 'other'
                    r.update(name=enc(f.name), ct=enc(f.content_type), charset=opt(f.charset), extra=extra_of(f.content_type_extra), te=opt(f.transfer_encoding),
                             size=f.size, pos=f.tell(), upload=isinstance(f, UploadedFile))
                    r['placed'] = r['kind'] != 'temp' or (os.path.dirname(f.temporary_file_path()) == updir and os.path.isfile(f.temporary_file_path()))
                r['disk'] = len(os.listdir(updir))
            elif o == 'over':
                h.upload_complete()
            else:
                f = fs[op['f'] - 1]
                if o == 'read': r['val'] = enc(f.read(op['n']) if op['n'] >= 0 else f.read())
                elif o == 'readline': r['val'] = enc(f.readline())
                elif o == 'readlines': r['vals'] = [enc(x) for x in f.readlines()]
                elif o == 'chunks':
                    r['vals'] = [enc(x) for x in (f.chunks(op['n']) if op['n'] else f.chunks())]
                elif o == 'lines':
                    if op['n']: f.DEFAULT_CHUNK_SIZE = op['n']
                    try: r['vals'] = [enc(x) for x in f]
                    finally:
                        if op['n']: del f.DEFAULT_CHUNK_SIZE
                elif o == 'seek': f.seek(op['n'])
                elif o == 'open': r['same'] = f.open() is f
                elif o == 'with':
                    with f as g:
                        r['same'] = g is f
                        r['val'] = enc(g.read())
                elif o == 'close': f.close()
                elif o == 'ask':
                    r.update(size=f.size, len=len(f), bool=bool(f), closed=bool(f.closed), able=bool(f.readable()), seekable=bool(f.seekable()),
                             multi=bool(f.multiple_chunks(op['n']) if op['n'] else f.multiple_chunks()), str=enc(str(f)) if f.name is None or isinstance(f.name, str) else enc(f.name),
                             gone=isinstance(f, TemporaryUploadedFile) and not os.path.exists(f.temporary_file_path()))
                if o in ('read', 'readline', 'readlines', 'chunks', 'lines', 'seek', 'open'): r['pos'] = f.tell()
        except Exception as e:
            r['err'] = category(e)
            r['detail'] = repr(e)[:300]
        op['obs'] = r
    for f in fs:
        try: f.close()
        except Exception: pass
    shutil.rmtree(updir, True)
    return case
