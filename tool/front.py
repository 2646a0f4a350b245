"""Front end: extracts the real code with astdump (clang) and indexes it."""
import json, os, subprocess, hashlib, glob, tempfile, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(os.path.dirname(HERE), '.build')


class FrontError(Exception):
    pass


def ensure_astdump():
    src = os.path.join(HERE, 'astdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'astdump-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run(['clang++', '-std=c++17', '-fno-rtti', '-O0', '-w', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                        '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18'],
                       capture_output=True, text=True)
    if r.returncode:
        raise FrontError('astdump does not build: ' + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def sources():
    root = os.path.join(REPO, 'src', 'src')
    res = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith('.cpp') and '/xml' not in d:
                res.append(os.path.join(d, f))
    return sorted(res)


def extract():
    """-> parsed JSON of the whole library (unity translation unit over the working tree)"""
    tool = ensure_astdump()
    # functions reachable only through templates of the public headers are instantiated by probe.h
    unity = ''.join('#include "%s"\n' % s for s in sources())
    unity += '#include "%s"\n' % os.path.join(HERE, 'probe.h')
    with tempfile.TemporaryDirectory(prefix='efgverif') as td:
        up = os.path.join(td, 'unity.cpp')
        open(up, 'w').write(unity)
        r = subprocess.run([tool, up, os.path.join(REPO, 'src'), '-std=c++17', '-DEFG_JSON_IO', '-I' + os.path.join(REPO, 'src', 'header'),
                            '-I' + os.path.join(REPO, 'src', 'src'), '-I/opt/vp/deps/include',
                            '-resource-dir=/usr/lib/llvm-18/lib/clang/18', '-w'], capture_output=True, text=True)
    if r.returncode:
        raise FrontError('extraction failed: ' + r.stderr[-3000:])
    return json.loads(r.stdout)


class Ty:
    __slots__ = ('prog', 'i', 'j')

    def __init__(self, prog, i):
        self.prog, self.i, self.j = prog, i, prog.d['types'][i]

    @property
    def k(self): return self.j['k']

    @property
    def s(self): return self.j['s']

    @property
    def const(self): return self.j.get('c', False)

    @property
    def to(self): return self.prog.ty(self.j['t'])

    @property
    def name(self): return self.j.get('n', '')

    @property
    def rid(self): return self.j.get('r')

    def args(self):
        """flat list of type template args"""
        res = []

        def add(a):
            if 't' in a: res.append(self.prog.ty(a['t']))
            elif 'pack' in a:
                for x in a['pack']: add(x)
        for a in self.j.get('args', []): add(a)
        return res

    def noref(self):
        return self.to if self.k == 'ref' else self

    def isref(self): return self.k == 'ref'

    def isrec(self, *names):
        return self.k == 'rec' and (not names or self.name in names)

    def __repr__(self): return 'Ty(%s)' % self.s


class Prog:
    def __init__(self, d):
        self.d = d
        self._ty = {}
        self.fn = {f['id']: f for f in d['functions']}
        self.rec = {r['id']: r for r in d['records']}
        self.var = {v['id']: v for v in d['vars']}
        self.byname = {}
        for f in d['functions']:
            if 'body' in f:
                key = ((f['rn'] + '::') if 'rn' in f and not f.get('lam') else '') + (f['n'] if 'rn' in f else f['qn'])
                f['key'] = key
                self.byname.setdefault(key, []).append(f)
        self.derived = {}
        for r in d['records']:
            for b in r['bases']:
                bt = self.ty(b['t'])
                self.derived.setdefault(bt.rid, []).append(r['id'])
        self.recbyname = {}
        for r in d['records']:
            self.recbyname.setdefault(r['n'], []).append(r)
        self.field = {}
        for r in d['records']:
            for f in r['fields']:
                self.field[f['id']] = (r, f)
        self.overriders = {}
        for f in d['functions']:
            for o in f.get('ov', []):
                self.overriders.setdefault(o, []).append(f['id'])
        self._refcls = {}

    def ty(self, i):
        t = self._ty.get(i)
        if t is None:
            t = self._ty[i] = Ty(self, i)
        return t

    def bases(self, rid):
        r = self.rec.get(rid)
        if not r: return []
        return [self.ty(b['t']) for b in r['bases']]

    def all_bases(self, rid):
        res = [rid]
        for b in self.bases(rid):
            for x in self.all_bases(b.rid):
                if x not in res: res.append(x)
        return res

    def all_derived(self, rid):
        res = [rid]
        for d in self.derived.get(rid, []):
            for x in self.all_derived(d):
                if x not in res: res.append(x)
        return res

    FORCED_REF = {'EFG::categoric::Variable', 'EFG::factor::Function::Info', 'EFG::strct::Node', 'EFG::strct::Node::Connection',
                  'EFG::strct::HiddenCluster', 'EFG::strct::HiddenCluster::TopologyInfo', 'EFG::strct::Pool', 'EFG::strct::Pool::Worker'}

    def is_refcls(self, rid):
        v = self._refcls.get(rid)
        if v is None:
            r = self.rec.get(rid)
            if r is None: v = False
            elif r['n'] in self.FORCED_REF: v = True
            else:
                fam = set()
                for x in self.all_bases(rid): fam.update(self.all_derived(x))
                fam.update(self.all_derived(rid))
                v = any(self.rec.get(x, {}).get('poly') for x in fam)
            self._refcls[rid] = v
        return v

    def find(self, key, pred=None):
        l = [f for f in self.byname.get(key, []) if pred is None or pred(f)]
        return l

    def sig(self, f):
        return ','.join(self.ty(p['t']).s for p in f['ps'])


def load(cached=None):
    return Prog(extract())
