"""Loads the JSON exported from clang for a set of translation units and merges it."""
import json, os, re, subprocess, hashlib, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

STDSTR = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'
def norm(s):
    s = s.replace('std::__cxx11::', 'std::')
    s = s.replace(STDSTR, 'std::string')
    s = s.replace('std::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t>>', 'std::wstring')
    s = s.replace('std::basic_stringstream<char, std::char_traits<char>, std::allocator<char>>', 'std::stringstream')
    s = s.replace('std::basic_istream<char, std::char_traits<char>>', 'std::istream')
    s = s.replace('std::basic_ostream<char, std::char_traits<char>>', 'std::ostream')
    s = re.sub(r', std::allocator<(?:[^<>]|<[^<>]*>|<(?:[^<>]|<[^<>]*>)*>)*>>', '>', s)
    s = re.sub(r', std::less<[^<>]*>', '', s)
    return s

def build_exporter(workdir):
    src = os.path.join(VERIF, 'extractor', 'export.cpp')
    key = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(VERIF, 'build', 'export-' + key)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    subprocess.run(['clang++', '-O0', '-fno-rtti', '-std=c++17', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                    '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '/usr/lib/llvm-18/lib/libLLVM.so.1'], check=True,
                   stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    os.rename(tmp, out)
    return out

class ExtractError(Exception):
    pass

def export(sources, workdir):
    exe = build_exporter(workdir)
    def one(s):
        name = os.path.basename(s)
        out = os.path.join(workdir, name + '.json')
        p = subprocess.run([exe, REPO + '/', out, os.path.join(REPO, s), '-std=gnu++17', '-I' + REPO + '/include',
                            '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w',
                            '-include', REPO + '/include/jsonContainer.hh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0 or not os.path.exists(out):
            raise ExtractError('clang could not read %s: %s' % (s, p.stdout.decode(errors='replace')[-2000:]))
        d = json.load(open(out))
        if d['errors']:
            raise ExtractError('clang reports errors in %s: %s' % (s, p.stdout.decode(errors='replace')[-2000:]))
        return s, d
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, sources))

class Ty:
    """canonical C++ type"""
    __slots__ = ('d', 'k', 'n', 'const', 'to', 'targs', 's', 'cnt')
    def __init__(self):
        self.to = None; self.targs = []; self.cnt = None
    def __repr__(self): return 'Ty(%s)' % self.s

class Program:
    def __init__(self):
        self.types = {}     # canonical string -> Ty
        self.funcs = {}     # mangled -> func dict
        self.records = {}   # name -> record
        self.globals = {}

    def load(self, exported):
        for src, d in exported:
            self._load(src, d)

    def _load(self, src, d):
        tt = d['types']
        cache = {}
        def ty(i):
            if i is None or i < 0: return None
            if i in cache: return cache[i]
            o = tt[i]
            t = self.types.get(o['s'])
            if t is None:
                t = Ty(); self.types[o['s']] = t
                cache[i] = t
                t.d = o; t.k = o['k']; t.const = o.get('const', False); t.s = norm(o['s'])
                t.n = norm(o['n']) if isinstance(o.get('n'), str) else o.get('n')
                if t.k == 'arr': t.cnt = o['n']
                if 'to' in o: t.to = ty(o['to'])
                if 'targs' in o:
                    t.targs = [ty(a) if isinstance(a, int) else (a['int'] if isinstance(a, dict) else None) for a in o['targs']]
            cache[i] = t
            return t
        def fix(o):
            if isinstance(o, list):
                for x in o: fix(x)
            elif isinstance(o, dict):
                for k in list(o.keys()):
                    v = o[k]
                    if k in ('t', 'at', 'ct', 'clt', 'ret', 'cls', 'base') and isinstance(v, int):
                        o[k] = ty(v)
                    elif k == 'p' and isinstance(v, list) and (not v or isinstance(v[0], int)):
                        o[k] = [ty(x) for x in v]
                    elif k == 'bases':
                        o[k] = [ty(x) for x in v]
                    elif k == 'n' and isinstance(v, str):
                        o[k] = norm(v)
                    else:
                        fix(v)
        fix(d['funcs']); fix(d['records'])
        for q, g in d['globals'].items():
            if g is None: continue
            g['t'] = ty(g['t'])
            if q not in self.globals or ('v' in g and 'v' not in self.globals[q]): self.globals[q] = g
        for r in d['records']:
            self.records.setdefault(r['n'], r)
        for f in d['funcs']:
            f['name'] = f['f']['n']; f['tu'] = src
            self.funcs.setdefault(f['f']['m'], f)

    # ---- class hierarchy
    def bases(self, name):
        r = self.records.get(name)
        return [b.n for b in r['bases']] if r else []
    def ancestors(self, name):
        out = [name]
        for b in self.bases(name):
            for x in self.ancestors(b):
                if x not in out: out.append(x)
        return out
    def isa(self, name, base):
        return base in self.ancestors(name)
    def subclasses(self, base):
        return [n for n in self.records if self.isa(n, base)]
    def all_fields(self, name):
        """[(class, field, Ty)] base first"""
        out = []
        r = self.records.get(name)
        if not r: return out
        for b in r['bases']:
            out += self.all_fields(b.n)
        for f in r['fields']:
            out.append((name, f['n'], f['t']))
        return out
