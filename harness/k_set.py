# -*- coding: utf-8 -*-
"""Settings: built, altered, raced for; the objects and the directories are recorded after every operation."""
from common import *
import request_parser, copy

PKG = os.path.dirname(os.path.abspath(request_parser.__file__))
ATTR = {'dir': 'FILE_UPLOAD_TEMP_DIR', 'mhs': 'MAX_HEADER_SIZE', 'fum': 'FILE_UPLOAD_MAX_MEMORY_SIZE', 'dum': 'DATA_UPLOAD_MAX_MEMORY_SIZE',
        'duf': 'DATA_UPLOAD_MAX_NUMBER_FIELDS', 'cs': 'DEFAULT_CHARSET'}
KEY = {'dir': 'FILE_UPLOAD_DIR', 'mhs': 'MAX_HEADER_SIZE', 'fum': 'FILE_UPLOAD_MAX_MEMORY', 'dum': 'DATA_UPLOAD_MAX_MEMORY',
       'duf': 'DATA_UPLOAD_MAX_FIELDS', 'cs': 'DEFAULT_CHARSET'}

class Place(object):
    """@ is the scratch directory, ~ a directory of this case within the package, % the package."""
    def __init__(self, base):
        self.base = scratch_dir(base)
        self.rel = 'v%d_%s' % (os.getpid(), os.path.basename(self.base))
        os.mkdir(os.path.join(PKG, self.rel))
        os.mkdir(self.rel)                        # of the same name in the working directory, which is of no account
    def real(self, t):
        t = t.replace('~', self.rel)
        return self.base + t[1:] if t[:1] == '@' else PKG + t[1:] if t[:1] == '%' else t
    def shown(self, p):
        if not isinstance(p, (str, TEXT)): return p
        for root, sign in ((self.base, '@'), (PKG, '%')):
            if p == root or p.startswith(root + '/'):
                p = sign + p[len(root):]
        return p.replace(self.rel, '~')
    def listing(self):
        out = []
        def walk(d):
            for n in sorted(os.listdir(d)):
                p = os.path.join(d, n)
                if os.path.islink(p): out.append([enc(self.shown(p)), 'link', enc(self.shown(os.readlink(p)))])
                elif os.path.isdir(p):
                    out.append([enc(self.shown(p)), 'dir', '='])
                    walk(p)
                else: out.append([enc(self.shown(p)), 'file', enc(open(p, 'rb').read())])
        walk(self.base)
        out.append([u'=%/~', 'dir', '='])
        walk(os.path.join(PKG, self.rel))
        return out
    def make(self, p, kind, t):
        p = self.real(dec(p))
        if kind == 'dir':
            if not os.path.isdir(p): os.mkdir(p)
        elif kind == 'file':
            f = open(p, 'wb')
            f.write(dec(t))
            f.close()
        elif kind == 'link': os.symlink(self.real(dec(t)), p)
    def gone(self):
        shutil.rmtree(self.base, True)
        shutil.rmtree(os.path.join(PKG, self.rel), True)
        shutil.rmtree(self.rel, True)

def value(pl, f, kind, v):
    if kind in ('none', 'true', 'false'): return {'none': None, 'true': True, 'false': False}[kind]
    if kind == 'int': return int(v[1:])
    s = dec(v) if kind == 'bytes' else udec(v)
    return pl.real(s) if f == 'dir' else s
def fields(pl, s):
    return {'f': [[f, enc(pl.shown(getattr(s, a)) if f == 'dir' else getattr(s, a))] for f, a in sorted(ATTR.items()) if hasattr(s, a)],
            'h': list(s.FILE_UPLOAD_HANDLERS)}
def given(pl, g):
    return dict((getattr(Settings.Key, KEY[f]), value(pl, f, k, v)) for f, k, v in g)
def build(d, op):
    return Settings(d, check_presence=True) if op.get('presence') else Settings(d)

def run(case, base):
    pl, objs = Place(base), []
    try:
        for e in case['dirs']: pl.make(*e)
        for op in case['ops']:
            r = {'err': '', 'dict': True}
            try:
                step(pl, objs, op, r)
            except Exception as e:
                r['err'] = category(e)
                r['detail'] = repr(e)[:300]
            r['all'] = [fields(pl, s) for s in objs]
            r['fs'] = pl.listing()
            op['obs'] = r
        return case
    finally:
        pl.gone()

def step(pl, objs, op, r):
    o = op['op']
    if o == 'build':
        d = given(pl, op['given'])
        before = dict(d)
        try:
            objs.append(build(d, op))
        finally:
            r['dict'] = d == before
            d.clear()
            d['MAX_HEADER_SIZE'] = 77
    elif o == 'default':
        s = Settings.default(check_presence=True) if op['presence'] else Settings.default()
        r['made'] = os.path.isdir(s.FILE_UPLOAD_TEMP_DIR)
        objs.append(s)
    elif o == 'alter':
        setattr(objs[op['s'] - 1], ATTR[op['f']], value(pl, op['f'], op['kind'], op['v']))
    elif o == 'handlers':
        s = objs[op['s'] - 1]
        s.FILE_UPLOAD_HANDLERS = list(op['names'])
        t = copy.copy(s)
        t.DATA_UPLOAD_MAX_NUMBER_FIELDS, t.DEFAULT_CHARSET = None, 'utf-8'
        q = R.HttpRequest(BytesIO(b''), t)
        r['got'] = ['%s.%s' % (h.__class__.__module__, h.__class__.__name__) for h in q.upload_handlers]
    elif o == 'load':
        x = object()
        h = UH.load_handler(op['name'], x)
        r['got'] = '%s.%s' % (h.__class__.__module__, h.__class__.__name__)
        r['args'] = getattr(h, 'request', None) is x or getattr(h, '_request', None) is x
    elif o == 'race':
        n = len(op['dufs'])
        errs, got = ['none'] * n, [{'f': [], 'h': []}] * n
        go = threading.Event()
        def one(i):
            d = given(pl, op['given'] + [['duf', 'int', op['dufs'][i]]])
            go.wait()
            try:
                got[i] = fields(pl, Settings(d))
                errs[i] = ''
            except Exception as e:
                errs[i] = category(e)
        ts = [threading.Thread(target=one, args=(i,)) for i in range(n)]
        for t in ts: t.start()
        go.set()
        for t in ts: t.join()
        r['errs'], r['got'] = errs, got
