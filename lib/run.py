"""Runs the three stages of a check: TLC on the models, the library on the cases, TLC on the recorded traces."""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JYENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/root", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC", "JYTHONPATH": "/opt/jylib"}

class Broken(Exception):
    """The machinery itself failed."""

def codes(x):
    """Strings that start with '=' stand for byte or character sequences; null for None."""
    if isinstance(x, str):
        return [ord(ch) for ch in x[1:]] if x[:1] == '=' else x
    if x is None:
        return [-1]
    if isinstance(x, list):
        return [codes(y) for y in x]
    if isinstance(x, dict):
        return {k: codes(v) for k, v in x.items()}
    return x

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random('%s/%s' % (seed, prop))
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix='rpv_')
        self.updirs = tempfile.mkdtemp(prefix='rpv_', dir=base)
        self.lib = os.path.join(self.dir, 'lib')
        os.mkdir(self.lib)
        shutil.copytree(os.path.join(REPO, 'request_parser'), os.path.join(self.lib, 'request_parser'),
                        ignore=shutil.ignore_patterns('tests', '*.class', '*.pyc', 'file_uploads'))
        import harvest
        self.h = harvest.harvest(os.path.join(self.lib, 'request_parser'))
        self.states = self.transitions = 0
        self.models = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.rmtree(self.updirs, ignore_errors=True)

    # ---- TLC on a model ----
    def tlc(self, module, cfg, env=None, workers=4, heap='3g', timeout=600, extra=()):
        meta = tempfile.mkdtemp(dir=self.dir)
        cmd = ['java', '-XX:+UseParallelGC', '-Xss256m', '-Xmx' + heap, '-Djava.io.tmpdir=' + meta, '-cp', CP, 'tlc2.TLC', '-workers', str(workers),
               '-noGenerateSpecTE', '-metadir', meta, '-config', cfg, *extra, module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors='replace')
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout

    def model(self, module, cfg, timeout=800, workers=2):
        """Exhaustive check of a model of the specification itself."""
        t = time.time()
        rc, out = self.tlc(module, cfg, timeout=timeout, workers=workers)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if rc != 0 or 'No error has been found' not in out or not m:
            raise Broken('model %s/%s: TLC exit %d\n%s' % (module, cfg, rc, out[-3000:]))
        self.models.append({'model': module, 'cfg': cfg, 'states': int(m.group(2)), 'transitions': int(m.group(1)), 'wall_s': round(time.time() - t, 1)})
        return out

    def gen(self, module, cfg, timeout=600, workers=1):
        """Histories that TLC prints while it explores a model."""
        t = time.time()
        rc, out = self.tlc(module, cfg, timeout=timeout, workers=workers)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if rc != 0 or not m:
            raise Broken('generation %s/%s: TLC exit %d\n%s' % (module, cfg, rc, out[-3000:]))
        res = [json.loads(json.loads(l)[3:]) for l in sorted({l for l in out.splitlines() if l.startswith('"## ')})]
        if not res:
            raise Broken('generation %s/%s gave nothing\n%s' % (module, cfg, out[-2000:]))
        self.models.append({'model': module, 'cfg': cfg, 'states': int(m.group(2)), 'transitions': int(m.group(1)),
                            'histories': len(res), 'wall_s': round(time.time() - t, 1)})
        return res

    # ---- the library ----
    def drive(self, cases, timeout=60, shards=None):
        n = shards or max(1, min(6, len(cases) // 40 + 1))
        parts = [cases[i::n] for i in range(n)]
        def one(i):
            src = os.path.join(self.dir, 'cases%d.jsonl' % i)
            dst = os.path.join(self.dir, 'obs%d.jsonl' % i)
            scr = os.path.join(self.updirs, 's%d' % i)
            os.makedirs(scr, exist_ok=True)
            cwd = os.path.join(self.dir, 'cwd%d' % i)       # with a file that a client may happen to name
            os.makedirs(cwd, exist_ok=True)
            with open(os.path.join(cwd, 'bait.txt'), 'w') as f:
                f.write('not an upload')
            with open(src, 'w') as f:
                for c in parts[i]:
                    f.write(json.dumps(c) + '\n')
            with open(os.path.join(self.dir, 'log%d' % i), 'w') as log:
                cmd = ['java', '-Xmx1500m', '-Xss8m', '-XX:+UseSerialGC', '-jar', '/usr/share/java/jython.jar', '-Dpython.home=/usr',
                       '-Dpython.executable=/usr/bin/jython', '-B', '-s', '-Dpython.cachedir.skip=true',
                       os.path.join(VERIF, 'harness', 'driver.py'), self.lib, src, dst, scr, str(timeout)]
                try:
                    subprocess.run(cmd, env=JYENV, cwd=cwd, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, timeout=800)
                except subprocess.TimeoutExpired:
                    pass
            try:
                res = [json.loads(l) for l in open(dst) if l.endswith('\n')]
            except OSError:
                res = []
            if len(res) < len(parts[i]):
                log = open(os.path.join(self.dir, 'log%d' % i)).read()[-2000:]
                if not res:
                    raise Broken('driver gave nothing:\n' + log)
                for k, c in enumerate(parts[i][len(res):]):   # the JVM ended within a case
                    res.append(dict(c, **({'hang': True, 'jvm': log} if k == 0 else {'skipped': True})))
            shutil.rmtree(scr, ignore_errors=True)
            return res
        with ThreadPoolExecutor(n) as ex:
            out = [r for rs in ex.map(one, range(n)) for r in rs]
        return out

    # ---- TLC on the traces ----
    def validate(self, module, cases, timeout=700, jvms=2):
        """{id: None | (step, op, set of clauses)} for every recorded case."""
        verdict, todo = {}, []
        for c in cases:
            if c.get('skipped'):
                continue
            if c.get('hang'):
                verdict[c['id']] = (0, 'run', {'hang'})
            elif c.get('crash'):
                verdict[c['id']] = (0, 'run', {'crash:' + c['crash'][-1200:]})
            else:
                todo.append(c)
        if not todo:
            return verdict
        jvms = min(jvms, len(todo) // 50 + 1)
        def one(i):
            part = todo[i::jvms]
            tr = os.path.join(self.dir, 'trace_%s_%d.jsonl' % (module, i))
            with open(tr, 'w') as f:
                for c in part:
                    f.write(json.dumps(codes(c)) + '\n')
            rc, out = self.tlc(module, 'Tr.cfg', env={'TRACE': tr}, workers=8 // jvms, timeout=timeout, heap='5g')
            os.remove(tr)
            got = {}
            for m in re.finditer(r'^"?@@ (\S+) (DONE|REJECT) (\d+) (\S+) (.*?)"?$', out, re.M):
                if m.group(2) == 'DONE':
                    got.setdefault(m.group(1), None)
                else:
                    cl = set(re.findall(r'\\?"((?:[^"\\]|\\\\\\?"|\\(?!"))*)\\?"', m.group(5))) or {m.group(5)}
                    got[m.group(1)] = (int(m.group(3)), m.group(4), cl)
            s = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
            missing = [c['id'] for c in part if c['id'] not in got]
            if missing or rc != 0:
                errs = re.search(r'Error:[\s\S]{0,2500}', out)
                raise Broken('trace validation %s: TLC exit %d, %d traces without a verdict (%s)\n%s' % (
                    module, rc, len(missing), missing[:3], errs.group(0) if errs else out[-1500:]))
            return got, int(s.group(2)), int(s.group(1))
        with ThreadPoolExecutor(jvms) as ex:
            for got, st, tr in ex.map(one, range(jvms)):
                verdict.update(got)
                self.states += st
                self.transitions += tr
        return verdict
