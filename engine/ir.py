"""Runs the frontend over the library and loads the resolved program."""
import json, os, subprocess, sys, glob, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('EOPSI_REPO', '/repo')
FRONT = os.path.join(VERIF, 'build', 'front')


class AnalysisBroken(Exception):
    pass


class Missing(AnalysisBroken):
    """something the check speaks of is not found in the source: nothing is decided about it"""


def build_front():
    src = os.path.join(VERIF, 'tool', 'front.cpp')
    stamp = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    sf = FRONT + '.stamp'
    if os.path.exists(FRONT) and os.path.exists(sf) and open(sf).read() == stamp:
        return
    os.makedirs(os.path.dirname(FRONT), exist_ok=True)
    tmp = FRONT + '.%d' % os.getpid()
    cmd = ['clang++', '-std=c++17', '-fno-rtti', '-O1', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
           '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18', '-l:libLLVM.so.18.1', '-Wl,-rpath,/usr/lib/llvm-18/lib']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('frontend does not build: ' + r.stderr[-2000:])
    os.replace(tmp, FRONT)
    with open(sf, 'w') as f:
        f.write(stamp)


class Program:
    def __init__(self):
        self.functions = {}
        self.records = {}
        self.types = {}
        self.globals = {}
        self.units = []
        self.over = {}      # fid -> overriders

    def merge(self, d, unit, off):
        def shift(o):
            if isinstance(o, dict):
                if 'd' in o and isinstance(o['d'], int):
                    o['d'] += off
                if str(o.get('q', '')).startswith('static:'):
                    o['q'] = 'static:%d:%s' % (off, o['q'][7:])
                for v in o.values():
                    shift(v)
            elif isinstance(o, list):
                for v in o:
                    shift(v)
        self.units.append(unit)
        for f in d['functions']:
            old = self.functions.get(f['fid'])
            if old is None or ('body' not in old and 'body' in f):
                shift(f)
                f['unit'] = unit
                self.functions[f['fid']] = f
        for r in d['records']:
            old = self.records.get(r['n'])
            if old is None:
                self.records[r['n']] = r
        for k, v in d['types'].items():
            if k not in self.types or ('size' not in self.types[k] and 'size' in v):
                self.types[k] = v
        for k, v in d['globals'].items():
            if k.startswith('static:'):
                k = 'static:%d:%s' % (off, k[7:])
                shift(v)
            if k not in self.globals:
                self.globals[k] = v

    def finish(self):
        self.byname = {}
        for f in self.functions.values():
            self.byname.setdefault(f['fn'], []).append(f)
        direct = {}
        for f in list(self.functions.values()):
            for b in f.get('over', []):
                direct.setdefault(b, []).append(f['fid'])
        for r in self.records.values():
            for m in r['methods']:
                for b in m['over']:
                    l = direct.setdefault(b, [])
                    if m['fid'] not in l:
                        l.append(m['fid'])
        self.over = direct

    def bases(self, rec):
        """all repo bases of a record, nearest first"""
        out = []
        r = self.records.get(rec)
        if not r:
            return out
        for b in r['bases']:
            bn = self.types.get(b, {}).get('base', b)
            out.append(bn)
            out += self.bases(bn)
        return out

    def derived(self, rec):
        return [n for n in self.records if rec in self.bases(n)]

    def methods(self, rec):
        return self.records[rec]['methods'] if rec in self.records else []

    def resolve(self, fid, cls):
        """the implementation of virtual `fid` in dynamic class cls"""
        chain = [cls] + self.bases(cls)
        cands = {fid} | self.all_over(fid)
        for c in chain:
            for m in self.methods(c):
                if m['fid'] in cands:
                    return m['fid']
        return fid

    def all_over(self, fid):
        out = set()
        st = [fid]
        while st:
            x = st.pop()
            for y in self.over.get(x, []):
                if y not in out:
                    out.add(y)
                    st.append(y)
        return out

    def fn(self, name, nparams=None, pred=None):
        """function(s) by plain qualified name"""
        fs = [f for f in self.byname.get(name, []) if 'body' in f]
        if nparams is not None:
            fs = [f for f in fs if len(f['params']) == nparams]
        if pred:
            fs = [f for f in fs if pred(f)]
        return fs


FLAGS = ['-std=c++11', '-I' + VERIF + '/spec/include', '-D_GNU_SOURCE', '-w', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


def load(repo=None, extra=()):
    repo = repo or REPO
    build_front()
    lib = os.path.join(repo, 'src', 'libeopsi')
    srcs = sorted(glob.glob(lib + '/*.cpp') + glob.glob(lib + '/*.cc') + glob.glob(lib + '/*.cxx'))
    if len(srcs) < 10:
        raise AnalysisBroken('library sources not found under ' + lib)
    srcs += sorted(glob.glob(VERIF + '/spec/*.cpp'))
    srcs += list(extra)
    tmp = tempfile.mkdtemp(prefix='eopsi-ir-')
    try:
        def one(i):
            out = os.path.join(tmp, '%d.json' % i)
            cmd = [FRONT, out, repo + '/src/libeopsi,' + VERIF + '/spec', srcs[i], '--'] + FLAGS + ['-I' + lib, '-I' + repo + '/src']
            r = subprocess.run(cmd, capture_output=True, text=True)
            return r.returncode, out, r.stderr
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, range(len(srcs))))
        p = Program()
        for i, (rc, out, err) in enumerate(res):
            if rc or not os.path.exists(out):
                raise AnalysisBroken('cannot parse %s: %s' % (srcs[i], err[-1500:]))
            p.merge(json.load(open(out)), srcs[i], (i + 1) * 1000000)
        p.finish()
        return p
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
