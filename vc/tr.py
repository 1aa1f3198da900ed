"""Translates functions of the exported C++ program, mechanically, into Verus proof functions carrying the contracts of
/verif/contracts. Every C++ statement becomes the corresponding state update; every contract clause, loop invariant,
callee precondition and machine-safety condition becomes a numbered `assert` (an obligation)."""
import re, json
from prog import Program, Ty

class Unsupported(Exception):
    """the function cannot be brought within the verifier's reach (construct, library call, or contract no longer attaches)"""

RUSTKW = {'type', 'match', 'ref', 'in', 'mod', 'fn', 'box', 'move', 'use', 'where', 'self', 'loop', 'impl', 'trait', 'as', 'pub', 'crate', 'super',
          'dyn', 'abstract', 'final', 'override', 'priv', 'yield', 'try', 'let', 'mut', 'static', 'const', 'struct', 'enum', 'proof', 'spec', 'exec',
          'choose', 'forall', 'exists', 'assert', 'assume', 'is', 'matches', 'has', 'set', 'ghost', 'tracked'}
def rname(n):
    n = re.sub(r'\W', '_', n)
    return n + '_' if n in RUSTKW else n
def san(n):
    n = n.replace('std::string', 'string').replace('long long', 'longlong').replace('unsigned ', 'u')
    n = re.sub(r'::', '_', n)
    n = re.sub(r'[<>, *&()\[\]]+', '_', n).strip('_')
    return n

SEQ_CLASSES = {'std::stack', 'std::basic_string', 'std::__cxx11::basic_string', 'std::list', 'std::__cxx11::list', 'std::vector', 'std::deque', 'std::initializer_list'}
STREAM_OUT = {'std::basic_stringstream', 'std::__cxx11::basic_stringstream', 'std::basic_ostream', 'std::basic_ostringstream',
              'std::__cxx11::basic_ostringstream'}
PTR_STREAMS = {'std::basic_stringstream': 'g_ss', 'std::__cxx11::basic_stringstream': 'g_ss', 'std::basic_ifstream': 'g_if'}
STREAM_IN = {'std::basic_istream', 'std::basic_ifstream'}
ITERS = {'std::_List_iterator', 'std::_List_const_iterator', '__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::_Rb_tree_const_iterator',
         'std::_Rb_tree_iterator'}
FAMILIES = {'JSonElement': ('h', 'H', 'JObj'), 'LevenshteinMatrice_base': ('lm', 'LM', 'LObj')}
BASE_FAMILIES = dict(FAMILIES)
def set_families(more):
    FAMILIES.clear(); FAMILIES.update(BASE_FAMILIES); FAMILIES.update(more)
OPAQUE = {'AParams', 'Params', 'DiffCmd', 'SearchPattern'}
STD_EXC = {'std::exception': [], 'std::logic_error': ['std::exception'], 'std::runtime_error': ['std::exception'], 'std::invalid_argument': ['std::logic_error'],
           'std::out_of_range': ['std::logic_error'], 'std::regex_error': ['std::runtime_error'], 'std::length_error': ['std::logic_error'],
           'std::bad_alloc': ['std::exception'], 'std::range_error': ['std::runtime_error']}

class Unit:
    """one verification unit (a generated Verus crate)"""
    def __init__(self, prog, contracts, syms):
        self.p = prog
        self.syms = syms
        self.structs = {}       # rust struct name -> definition
        self.struct_order = []
        self.contract_of = {}   # mangled -> Contract
        self.contracts = contracts
        for k, v in syms.items():
            if k.startswith('as:'): self.specialise(k[3:], v.split())
        self.attach()
        self.specfns = []; self.proofs = []
        self.obs = []           # obligations
        self.used_contracts = []
        self.assumptions = set()
        self.inlined = set()
        self.snap = {}; self.ckeys = {}; self.globs = {}; self.heapvals = {}
        self.value_params = False   # True: Params is a value class (own methods)
        self.fam_done = {}
        self.valuecls = set()
    def specialise(self, name, classes):
        """a method of a base class, as run on objects of each of the classes: same body, the calls on the object dispatched for that class"""
        for m, f in list(self.p.funcs.items()):
            if f['name'] != name or '@' in m: continue
            for c in classes:
                r = self.p.records.get(c)
                if r is None or m + '@' + c in self.p.funcs: continue
                n = c + '::' + name.split('::')[-1]
                self.p.funcs[m + '@' + c] = dict(f, name=n, f=dict(f['f'], n=n, m=m + '@' + c, cls=r['t']))
    def special(self, m, t):
        return m + '@' + t.n if t is not None and t.k == 'rec' and m is not None and m + '@' + t.n in self.p.funcs else m
    # ---- attach contracts to functions
    def attach(self):
        self.unattached = []
        for c in self.contracts:
            rx = re.compile('^' + re.escape(c.name).replace(r'\*', '.*') + '$')
            hit = False
            for m, f in self.p.funcs.items():
                if not rx.match(f['name']): continue
                if c.arity is not None and len(f['params']) != c.arity: continue
                if c.const == 'const' and not f.get('const'): continue
                if c.opts.get('nonconst') and f.get('const'): continue
                if 'ptypes' in c.opts:
                    if not all(re.search(x, p['t'].s) for x, p in zip(c.opts['ptypes'].split(';'), f['params'])): continue
                self.contract_of.setdefault(m, c); hit = True
            if not hit: 
                # contract of a pure virtual / external method
                self.unattached.append(c)
    def virtual_contract(self, fn):
        """contract for a method without body in the program (pure virtual)"""
        for c in self.contracts:
            if re.match('^' + re.escape(c.name).replace(r'\*', '.*') + '$', fn['n']) and (c.arity is None or c.arity == len(fn['p'])):
                return c
        return None

    # ---- types
    def fam(self, t):
        if t is None or t.k != 'rec': return None
        for b, f in FAMILIES.items():
            if t.n == b or self.p.isa(t.n, b): return b
        return None
    def is_exc(self, t):
        if t is None or t.k != 'rec': return False
        return t.n in STD_EXC or any(a in STD_EXC for a in self.p.ancestors(t.n))
    def short(self, t): return t.d.get('short', '')
    def kind(self, t):
        """classification of a (non reference) type"""
        t = self.strip(t)
        if t.k == 'builtin':
            if t.n == 'bool': return 'bool'
            if t.n == 'void': return 'void'
            if t.d.get('float'): return 'dbl'
            if t.n == 'nullptr_t' or t.n == 'std::nullptr_t': return 'int'
            return 'int'
        if t.k == 'enum': return 'int'
        if t.k == 'ptr':
            to = t.to
            if to.k == 'rec': return 'int'
            if to.k == 'func' : return 'int'
            if to.k == 'builtin' and to.n == 'void': return 'int'
            if to.k == 'builtin' or to.k == 'ptr' or to.k == 'enum': return 'ptr'
            return 'int'
        if t.k == 'arr': return 'seq'
        if t.k == 'rec':
            s = self.short(t)
            if self.is_exc(t): return 'exc'
            if s in SEQ_CLASSES: return 'seq'
            if s in ('std::map',): return 'map'
            if s in ('std::set',): return 'set'
            if s == 'std::pair': return 'pair'
            if s in ITERS: return 'iter'
            if s in STREAM_OUT: return 'ostream'
            if s in STREAM_IN: return 'istream'
            if s == 'std::basic_ofstream': return 'ofs'
            if s.startswith('std::') or s.startswith('__gnu'): return 'int'
            if self.fam(t): return 'obj'
            if t.n in OPAQUE and t.n not in self.valuecls: return 'int'
            r = self.p.records.get(t.n)
            if r is None: return 'int'
            fs = self.p.all_fields(t.n)
            cb = self.cont_base(t.n)
            if cb is not None and not fs: return 'contrec'
            return 'struct'
        return 'int'
    def cont_base(self, name):
        """std container a record derives from, if any"""
        r = self.p.records.get(name)
        if not r: return None
        for b in r['bases']:
            if self.short(b) in SEQ_CLASSES: return b
            x = self.cont_base(b.n)
            if x is not None: return x
        return None
    def strip(self, t):
        while t.k in ('ref', 'rref'): t = t.to
        return t
    def elem(self, t):
        """element type of a sequence-like type"""
        t = self.strip(t)
        if t.k in ('arr', 'ptr'): return t.to
        s = self.short(t)
        if s in ITERS:
            a = t.targs[0]
            if s == '__gnu_cxx::__normal_iterator': return a.to
            return a
        if s in SEQ_CLASSES or s == 'std::set': return t.targs[0]
        cb = self.cont_base(t.n)
        if cb is not None: return cb.targs[0]
        raise Unsupported('element type of ' + t.s)
    def rs(self, t):
        t = self.strip(t)
        k = self.kind(t)
        if k in ('int', 'obj'): return 'int'
        if k == 'bool': return 'bool'
        if k == 'dbl': return 'Dbl'
        if k == 'void': return '()'
        if k == 'ptr': return 'P<%s>' % self.rs(t.to)
        if k == 'seq': return 'Seq<%s>' % self.rs(self.elem(t))
        if k == 'map': return 'Map<%s, %s>' % (self.rs(t.targs[0]), self.rs(t.targs[1]))
        if k == 'set': return 'Set<%s>' % self.rs(t.targs[0])
        if k == 'pair': return 'Pair<%s, %s>' % (self.rs(t.targs[0]), self.rs(t.targs[1]))
        if k == 'iter': return 'It<%s>' % self.rs(self.elem(t))
        if k == 'ostream': return 'Seq<int>'
        if k == 'istream': return 'Stream'
        if k == 'ofs': return 'Ofs'
        if k == 'exc': self.need_exc(); return 'Exc'
        if k == 'contrec': return 'Seq<%s>' % self.rs(self.elem(t))
        if k == 'struct': return self.struct(t)
        raise Unsupported('type ' + t.s)
    def struct(self, t):
        n = self.sname(t.n)
        if n in self.structs: return n
        self.structs[n] = None
        fs = []
        cb = self.cont_base(t.n)
        if cb is not None: fs.append('pub items: Seq<%s>' % self.rs(cb.targs[0]))
        for c, f, ft in self.p.all_fields(t.n):
            fs.append('pub %s: %s' % (rname(f), self.rs(ft)))
        if not fs: fs.append('pub unit_: int')
        self.structs[n] = 'pub struct %s { %s }' % (n, ', '.join(fs))
        self.struct_order.append(n)
        return n
    def sname(self, n):
        for a, b in self.syms.items():
            if a.startswith('class:') and re.match(a[6:].replace('*', '.*') + '$', n): return b
        return san(n)
    def need_exc(self):
        if 'Exc' in self.structs: return
        self.structs['Exc'] = None
        lh = None
        for r in self.p.records.values():
            if r['n'] == 'LinearHistory': lh = self.struct(r['t'])
        self.structs['Exc'] = 'pub struct Exc { pub tag: int, pub what_: Seq<int>, pub offset: int, %s pub c: int }' % (('pub history: %s,' % lh) if lh else '')
        self.struct_order.append('Exc')
        txt = []
        for c in self.exc_classes():
            txt.append('pub open spec fn X_%s() -> int { %d }' % (san(c.replace('std::', '')), self.exc_tag(c)))
            txt.append('pub open spec fn XS_%s(t: int) -> bool { %s }' % (san(c.replace('std::', '')), ' || '.join('t == %d' % x for x in self.exc_subs(c))))
        self.structs['@exc'] = '\n'.join(txt); self.struct_order.append('@exc')
    def exc_classes(self):
        names = list(STD_EXC)
        for n in sorted(self.p.records):
            if any(a in STD_EXC for a in self.p.ancestors(n)): names.append(n)
        return names
    def exc_tag(self, n): return 1000 + self.exc_classes().index(n)
    def exc_subs(self, n):
        out = []
        for c in self.exc_classes():
            anc = [c]; st = [c]
            while st:
                x = st.pop()
                for b in (STD_EXC.get(x) or self.p.bases(x)):
                    if b not in anc: anc.append(b); st.append(b)
            if n in anc: out.append(self.exc_tag(c))
        return out
    # ---- heap families
    def fam_fields(self, base):
        out = []
        for c in sorted(self.p.subclasses(base)):
            r = self.p.records[c]
            for f in r['fields']:
                out.append((c, f['n'], f['t'], san(c) + '_' + rname(f['n'])))
        return out
    def fam_classes(self, base):
        return sorted(self.p.subclasses(base))
    def tag(self, cname):
        base = next(b for b in FAMILIES if self.p.isa(cname, b))
        return self.fam_classes(base).index(cname) + 1
    def need_fam(self, base):
        if base in self.fam_done: return
        self.fam_done[base] = True
        v, H, O = FAMILIES[base]
        fs = ['pub tag: int']
        has_items = False
        for c in self.fam_classes(base):
            if self.cont_base(c) is not None: has_items = True
        if has_items: fs.append('pub items: Seq<int>')
        for c, f, t, n in self.fam_fields(base):
            fs.append('pub %s: %s' % (n, self.rs(t)))
        self.structs[O] = 'pub struct %s { %s }' % (O, ', '.join(fs)); self.struct_order.append(O)
        self.structs[H] = 'pub struct %s { pub m: Map<int, %s>, pub next: int }' % (H, O); self.struct_order.append(H)
        txt = []
        for c in self.fam_classes(base):
            tags = [self.tag(x) for x in self.fam_classes(base) if self.p.isa(x, c) and not self.p.records[x].get('abstract')]
            txt.append('pub open spec fn is_%s(t: int) -> bool { %s }' % (san(c), ' || '.join('t == %d' % x for x in tags) or 'false'))
            txt.append('pub open spec fn T_%s() -> int { %d }' % (san(c), self.tag(c)))
        self.structs['@' + base] = '\n'.join(txt); self.struct_order.append('@' + base)
    def ok(self, code, t, deep=0):
        """type invariants of a value that are free of quantifiers"""
        t = self.strip(t)
        k = self.kind(t)
        if k == 'int':
            if t.k in ('builtin', 'enum') and t.d.get('bits'):
                return ['in_%s%d(%s)' % ('i' if t.d['signed'] else 'u', t.d['bits'], code)]
            return []
        if k == 'seq' and t.k == 'arr' and t.cnt and t.cnt > 0:
            return ['%s.len() == %s' % (code, t.cnt)]
        if k == 'istream': return ['st_ok(%s)' % code]
        if k == 'struct':
            out = []
            for c, f, ft in self.p.all_fields(t.n):
                if deep > 3: break
                sym = self.syms.get('len:%s.%s' % (re.sub(r'<.*', '', c), f))
                if sym:
                    out.append('%s.%s.len() == %s' % (code, rname(f), sym)); continue
                out += self.ok('%s.%s' % (code, rname(f)), ft, deep + 1)
            return out
        if k == 'exc' and 'history' in (self.structs.get('Exc') or ''):
            return self.ok(code + '.history', self.p.records['LinearHistory']['t'], 1)
        if k == 'pair':
            return self.ok(code + '.first', t.targs[0], deep + 1) + self.ok(code + '.second', t.targs[1], deep + 1)
        if k == 'ptr':
            return []
        return []
    def root_type(self, root):
        for b, (v, H, O) in FAMILIES.items():
            if v == root: self.need_fam(b); return H
        if root in ('g_cout', 'g_cerr'): return 'Seq<int>'
        return self.globs[root]
    # ---- contract signatures
    def sig(self, c, fn, params, isstatic, cls):
        """list of (contractname, rusttype, cppTy or None, isref-mutable) inputs for a contract function"""
        ins = []
        if cls is not None and not isstatic:
            k = self.kind(cls)
            ins.append(('this', 'int' if k in ('obj', 'int') else self.rs(cls), cls, True))
        names = c.params or [p[0] for p in params]
        if len(names) != len(params): raise Unsupported('contract %s: parameter count' % c.name)
        for nm, (pn, pt) in zip(names, params):
            ins.append((nm, self.rs(pt), pt, pt.k == 'ref' and not pt.to.const))
        txt = ' '.join(x.text for x in c.requires + c.ensures + c.throws) + ' ' + ' '.join(c.modifies)
        for root in [FAMILIES[b][0] for b in FAMILIES] + ['g_cout', 'g_cerr'] + sorted(self.globs):
            if re.search(r'(?<![\w.])%s\b' % root, txt): ins.append((root, self.root_type(root), None, True))
        return ins

IDENT = re.compile(r'(?<![\w.$])([A-Za-z_]\w*)\b(?!\s*(?:\(|::|!(?!=)))')
def subst(text, env, old=None):
    if old is not None:
        def o(m):
            n = m.group(1)
            if n not in old: raise Unsupported('old(%s): unknown name' % n)
            return '(\0%s\0)' % old[n]
        text = re.sub(r'\bold\((\w+)\)', o, text)
    parts = text.split('\0')
    out = []
    for i, p in enumerate(parts):
        if i % 2: out.append(p)
        else:
            p = re.sub(r'\$(\w+)', lambda m: env['$' + m.group(1)] if ('$' + m.group(1)) in env else m.group(0), p)
            out.append(IDENT.sub(lambda m: env.get(m.group(1), m.group(1)), p))
    return ''.join(out)

class Ob:
    __slots__ = ('id', 'fn', 'kind', 'line', 'desc', 'tags', 'props', 'status')

def walk(n):
    if isinstance(n, dict):
        yield n
        for k, v in n.items():
            if k in ('t', 'fn', 'p', 'ret', 'cls', 'ct', 'clt', 'at'): continue
            yield from walk(v)
    elif isinstance(n, list):
        for x in n: yield from walk(x)
def has_effect(e):
    for n in walk(e):
        k = n.get('k')
        if k in ('Assign', 'CAssign', 'New', 'Delete', 'Throw', 'Call', 'MCall', 'OCall'): return True
        if k == 'Un' and n['op'] in ('++', '--'): return True
    return False
def terminates(s):
    if s is None: return False
    k = s['k']
    if k in ('Return', 'Break', 'Continue'): return True
    if k == 'Expr' and s['e'] and s['e']['k'] == 'Throw': return True
    if k == 'Block': return bool(s['s']) and terminates(s['s'][-1])
    if k == 'If': return s['b'] is not None and terminates(s['a']) and terminates(s['b'])
    return False
def count_kind(s, kinds, into_loops=True):
    c = 0
    def go(n):
        nonlocal c
        if isinstance(n, dict):
            if n.get('k') in kinds: c += 1
            if not into_loops and n.get('k') in ('While', 'Do', 'For', 'RangeFor'): return
            for k, v in n.items():
                if k in ('t', 'fn', 'p', 'ret', 'cls'): continue
                go(v)
        elif isinstance(n, list):
            for x in n: go(x)
    go(s)
    return c

class Frame:
    """a C++ function being translated (the outermost one, or one inlined into it)"""
    def __init__(self, func, top):
        self.func = func; self.top = top; self.vars = {}; self.this = None; self.thiscls = None; self.ret = None; self.retty = None; self.refret = False
        self.loopdepth = 0; self.ctor = False; self.contract = None
        self.thisty = None; self.maythrow = False; self.reflv = None

class FnTr:
    def __init__(self, unit, func, contract, localmap=None):
        self.u = unit; self.f = func; self.c = contract
        self.out = []; self.ind = 1
        self.decls = []; self.n = 0
        self.obs = []
        self.names = {}       # contract name -> rust code (current state)
        self.olds = {}
        self.assigned = None  # recording during dry runs
        self.links = []       # (member holding a reference, what it refers to, const)
        self.written = {}     # root -> set of fields (over the whole function)
        self.trystack = []
        self.loopno = 0
        self.guards = [0]
        self.abrupt = False
        self.dry = 0
        self.calls = {}       # callee short name -> count
        self.locals_seen = [] # (cname, type string, rust)
        self.inline_stack = []
        self.callees = set()
        self.roots_used = set()
        self.localmap = localmap
        self.namestack = []
        self.frame = None; self.frames_below = []; self.vstruct = {}; self.vtypes = {}; self.usedvars = set(); self.catchstack = []
        self.inline_forced = set(); self.scc = set(); self.cur_fn = func['f']; self.callnames = {}; self.curline = func['line']
        self.snap = unit.snap.get(func['name'] + '|' + func['f']['m'])
        self.alllocals = [n for n in walk(func['body']) if isinstance(n.get('t'), Ty) and 'id' in n and 'n' in n and 'k' not in n]
        self.snaplocals = {x[0] for x in (self.snap or {}).get('locals', [])} | set((self.snap or {}).get('params', []))
        if contract is not None:
            for m, f in unit.p.funcs.items():
                if any(re.match('^' + re.escape(x).replace(r'\*', '.*') + '$', f['name']) for x in contract.inline): self.inline_forced.add(m)
    # ---- output
    def emit(self, s):
        for l in s.split('\n'): self.out.append('    ' * self.ind + l)
    def fresh(self, base='t'):
        self.n += 1
        return '%s_%d' % (base, self.n)
    def tmp(self, code, rs):
        if re.match(r'^[a-z]\w*_\d+$', code) and code.startswith('t_'): return code
        t = self.fresh('t'); self.emit('let %s: %s = %s;' % (t, rs, code)); return t
    def hoist(self, rs, base='x'):
        t = self.fresh(base); self.decls.append('let mut %s: %s = nd();' % (t, rs)); return t
    def ob(self, kind, cond, line, desc, tags=()):
        if self.dry: self.emit('// dry'); return
        o = Ob(); o.id = '%s#%d' % (self.f['name'], len(self.obs) + 1); o.fn = self.f['name']; o.kind = kind; o.line = line; o.desc = desc; o.tags = list(tags)
        self.obs.append(o)
        self.emit('assert(%s); //@OB:%s' % (cond.replace('\n', ' '), len(self.obs)))
    def assume(self, cond): self.emit('assume(%s);' % cond.replace('\n', ' '))
    def assume_ok(self, code, t):
        cs = self.u.ok(code, t)
        if cs: self.assume(' && '.join(cs))
    # ---- lvalues
    def read(self, lv):
        k = lv[0]
        if k == 'var': return lv[1]
        if k == 'val': return lv[1]
        if k == 'fld': return '%s.%s' % (self.paren(self.read(lv[1])), lv[2])
        if k == 'idx': return '%s[%s]' % (self.paren(self.read(lv[1])), lv[2])
        if k == 'key': return '%s[%s]' % (self.paren(self.read(lv[1])), lv[2])
        if k == 'hf': return '%s.m[%s].%s' % (lv[1], lv[2], lv[3])
        if k == 'obj': return lv[1]
        if k == 'last': 
            b = self.read(lv[1]); return '%s[%s.len() - 1]' % (self.paren(b), self.paren(b))
        raise Unsupported('read ' + k)
    def paren(self, s):
        return s if re.match(r'^[\w.\[\]$]+$', s) else '(%s)' % s
    def record(self, lv):
        fld = None; x = lv
        while True:
            if x[0] == 'var': root = x[1]; break
            if x[0] == 'hf': root = x[1]; fld = None; break
            if x[0] == 'val' or x[0] == 'obj': return
            if x[0] == 'fld': fld = x[2]
            else: fld = None
            x = x[1]
        # only the outermost field of a struct variable is kept
        y = lv; top = None
        while y[0] not in ('var', 'hf'):
            if y[0] == 'fld' and y[1][0] == 'var': top = y[2]
            y = y[1]
        self.note(root, top)
    def note(self, root, fld=None):
        if self.assigned is not None: self.assigned.setdefault(root, set()).add(fld)
        self.written.setdefault(root, set()).add(fld)
    def lvroot(self, lv):
        while lv[0] not in ('var', 'hf', 'val', 'obj'): lv = lv[1]
        return lv[1] if lv[0] == 'var' else None
    def write(self, lv, code):
        self.record(lv)
        self.write_(lv, code)
        if not self.links: return
        # an object holding a reference and what it refers to keep the same value
        r = self.lvroot(lv)
        if r is None: return
        for m, t, const in self.links:
            if r == self.lvroot(m) and not const and lv is not m: self.record(t); self.write_(t, self.read(m))
            elif r == self.lvroot(t): self.record(m); self.write_(m, self.read(t))
    def write_(self, lv, code):
        k = lv[0]
        if k == 'var': self.emit('%s = %s;' % (lv[1], code)); return
        if k == 'fld':
            b = self.read(lv[1])
            self.write_(lv[1], '%s { %s: %s, ..%s }' % (lv[3], lv[2], code, b)); return
        if k == 'idx': self.write_(lv[1], '%s.update(%s, %s)' % (self.paren(self.read(lv[1])), lv[2], code)); return
        if k == 'key': self.write_(lv[1], '%s.insert(%s, %s)' % (self.paren(self.read(lv[1])), lv[2], code)); return
        if k == 'hf':
            h = lv[1]; H, O = next((H, O) for b, (v, H, O) in FAMILIES.items() if v == h)
            self.emit('%s = %s { m: %s.m.insert(%s, %s { %s: %s, ..%s.m[%s] }), ..%s };' % (h, H, h, lv[2], O, lv[3], code, h, lv[2], h)); return
        raise Unsupported('assignment to a temporary (%s)' % k)
    def cap_lv(self, lv):
        """freeze index expressions of an lvalue"""
        k = lv[0]
        if k in ('var', 'val'): return lv
        if k == 'obj': return ('obj', self.hcap(lv[1], 'int'), lv[2])
        if k == 'fld': return ('fld', self.cap_lv(lv[1])) + lv[2:]
        if k == 'idx': return ('idx', self.cap_lv(lv[1]), self.hcap(lv[2], 'int'))
        if k == 'key': return ('key', self.cap_lv(lv[1]), self.hcap(lv[2], lv[3]), lv[3])
        if k == 'last':
            b = self.cap_lv(lv[1]); return ('idx', b, self.hcap('(%s.len() - 1)' % self.paren(self.read(b)), 'int'))
        if k == 'hf': return ('hf', lv[1], self.hcap(lv[2], 'int'), lv[3])
        return lv
    def hcap(self, code, rs):
        if re.match(r'^(-?\d+(int)?|(?:[tx]|al)_\d+|this_)$', code): return code
        t = self.hoist(rs, 'x'); self.emit('%s = %s;' % (t, code)); return t
    # ---- heap
    def famvar(self, base):
        self.u.need_fam(base); v = FAMILIES[base][0]; self.roots_used.add(v); return v
    def deref(self, ptr, t, line):
        """lvalue for *ptr with ptr of static pointee class t"""
        fam = self.u.fam(t)
        if fam is None and self.u.short(t) == 'std::basic_regex':
            self.ob('pointer', '%s != 0' % ptr, line, 'pointer to a regular expression is valid'); return ('val', ptr)
        if fam is None:
            v = self.constobj(ptr, t, line) or self.heapval(ptr, t, line) or self.instream(ptr, t, line)
            if v is None: raise Unsupported('dereference of ' + t.s)
            return v
        return ('obj', ptr, fam, t)
    def heapval(self, ptr, t, line):
        """an object of a class treated as a value, kept in a map from pointers"""
        u = self.u; g = u.heapvals.get(u.strip(t).n)
        if g is None: return None
        self.roots_used.add(g); p = self.tmp(ptr, 'int')
        self.ob('pointer', '%s.dom().contains(%s)' % (g, p), line, 'pointer to %s is valid' % u.strip(t).n)
        return ('key', ('var', g), p, 'int')
    def instream(self, ptr, t, line):
        u = self.u
        if u.kind(t) != 'istream' or 'input' not in u.syms: return None
        p = self.tmp(ptr, 'int')
        self.ob('pointer', '%s != 0' % p, line, 'stream pointer is not null')
        u.assumptions.add('each input is read by one parser only, from its beginning')
        return ('val', '%s(%s)' % (u.syms['input'], p))
    def objof(self, ptr, s):
        u = self.u; decl = 'pub uninterp spec fn obj_%s(p: int) -> %s;' % (san(s.n), u.rs(s))
        if decl not in u.specfns: u.specfns.append(decl)
        return 'obj_%s(%s)' % (san(s.n), ptr)
    def constobj(self, ptr, t, line):
        """what a pointer to a constant object of a class treated as a value points to"""
        u = self.u; s = u.strip(t)
        if s.n not in u.valuecls or not t.const or u.kind(s) != 'struct': return None
        self.objof('0int', s)
        u.assumptions.add('an object of class %s reached through a pointer to const does not change, and is not used after its deletion (the replay drivers run under AddressSanitizer)' % s.n)
        p = self.tmp(ptr, 'int')
        self.ob('pointer', '%s != 0' % p, line, 'pointer to %s is not null' % s.n)
        return ('val', 'obj_%s(%s)' % (san(s.n), p))
    def hfield(self, ptr, cls, fld, line):
        base = next(b for b in FAMILIES if self.u.p.isa(cls, b))
        v = self.famvar(base)
        if ptr != 'this_':
            self.ob('pointer', '%s.m.dom().contains(%s)' % (v, ptr), line, 'pointer to %s is valid' % cls)
            if cls not in FAMILIES:
                self.ob('pointer', 'is_%s(%s.m[%s].tag)' % (san(cls), v, ptr), line, 'object accessed as %s is one' % cls)
        if fld == 'items': return ('hf', v, ptr, 'items')
        side = self.u.syms.get('side:%s.%s' % (cls, fld))
        if side: self.roots_used.add(side); return ('key', ('var', side), ptr, 'int')
        return ('hf', v, ptr, san(cls) + '_' + rname(fld))
    # ---- names for contracts
    def subst(self, text):
        return subst(text, self.names, self.olds)
    def bindname(self, cname, lv, ty=None):
        self.names[cname] = self.read(lv)

    # ---- expressions
    def lit(self, v):
        v = int(v)
        return '%dint' % v if v >= 0 else '(-%dint)' % -v
    def const(self, code):
        m = re.match(r'^\(?(-?\d+)int\)?$', code)
        return int(m.group(1)) if m else None
    def irange(self, t):
        t = self.u.strip(t)
        if t.k not in ('builtin', 'enum'): return None
        if t.n == 'bool': return (0, 1, 8, False)
        b = t.d.get('bits')
        if not b: return None
        s = t.d['signed']
        return (-(1 << (b - 1)) if s else 0, (1 << (b - (1 if s else 0))) - 1, b, s)
    def icast(self, code, src, dst):
        rs_, rd = self.irange(src), self.irange(dst)
        if rs_ is None or rd is None: return code
        if self.u.kind(src) == 'bool' and self.u.kind(dst) != 'bool': return 'b2i(%s)' % code
        c = self.const(code)
        if c is not None:
            lo, hi, b, s = rd
            if not (lo <= c <= hi):
                c &= (1 << b) - 1
                if s and c >> (b - 1): c -= 1 << b
            return self.lit(c)
        if rd[0] <= rs_[0] and rs_[1] <= rd[1]: return code
        return 'wrap_%s%d(%s)' % ('i' if rd[3] else 'u', rd[2], code)
    def arith(self, op, a, b, t, line):
        r = self.irange(t)
        ca, cb = self.const(a), self.const(b)
        if r is None: raise Unsupported('arithmetic on ' + t.s)
        lo, hi, bits, signed = r
        def fin(raw, what):
            if signed:
                self.ob('overflow', 'in_i%d(%s)' % (bits, raw), line, 'no signed overflow in %s' % what)
                return raw
            return 'wrap_u%d(%s)' % (bits, raw)
        if op in ('+', '-', '*'):
            if ca is not None and cb is not None:
                v = {'+': ca + cb, '-': ca - cb, '*': ca * cb}[op]
                if lo <= v <= hi: return self.lit(v)
            return fin('(%s %s %s)' % (a, op, b), op)
        if op in ('/', '%'):
            if cb is None: self.ob('division', '%s != 0' % b, line, 'no division by zero')
            elif cb == 0: self.ob('division', 'false', line, 'no division by zero')
            if signed: return ('tdiv(%s, %s)' if op == '/' else 'tmod(%s, %s)') % (a, b)
            return '(%s %s %s)' % (a, op, b)
        if op == '<<':
            if cb is None:
                self.ob('shift', '0 <= %s < %d' % (b, bits), line, 'shift by less than the width')
                return fin('(%s * pw2(%s))' % (a, b), '<<')
            return fin('(%s * %dint)' % (a, 1 << cb), '<<')
        if op == '>>':
            if cb is None: raise Unsupported('shift by a variable')
            return '(%s / %dint)' % (a, 1 << cb)
        if op in ('&', '|', '^'):
            if ca is not None and cb is None: a, b, ca, cb = b, a, cb, ca
            if ca is not None and cb is not None:
                return self.lit({'&': ca & cb, '|': ca | cb, '^': ca ^ cb}[op])
            if cb is not None:
                if op == '&':
                    if cb >= 0: 
                        ps = [1 << i for i in range(64) if cb >> i & 1]
                        return '(%s)' % ' + '.join('%dint * bit(%s, %dint)' % (p, a, p) for p in ps) if ps else '0int'
                    inv = ~cb
                    ps = [1 << i for i in range(64) if inv >> i & 1]
                    return '(%s%s)' % (a, ''.join(' - %dint * bit(%s, %dint)' % (p, a, p) for p in ps))
                if op == '|' and cb >= 0:
                    ps = [1 << i for i in range(64) if cb >> i & 1]
                    return '(%s%s)' % (a, ''.join(' + %dint * (1 - bit(%s, %dint))' % (p, a, p) for p in ps))
            return ('band(%s, %s)' if op == '&' else 'bor(%s, %s)' if op == '|' else 'bxor(%s, %s)') % (a, b)
        raise Unsupported('operator ' + op)
    def is_null(self, e):
        while e and e['k'] == 'Cast': e = e['e']
        return bool(e) and (e['k'] == 'Null' or (e['k'] == 'Int' and e['v'] == '0'))

    def sub(self, f):
        """run f() in a nested buffer; returns (result, code lines, may_be_abrupt)"""
        so, si = self.out, self.ind; self.out = []; self.guards.append(0); sm = self.abrupt; self.abrupt = False
        try:
            r = f()
            lines = self.out; g = self.guards.pop()
            may = self.abrupt
        finally:
            self.out = so
        return r, lines, g, may, si, sm
    def branch(self, cond, f, g=None):
        """if cond { f() } else { g() }: statement buffers joined; returns whether control may be abrupt after"""
        self.emit('if %s {' % cond); self.ind += 1
        may = self.scoped(f)
        self.ind -= 1
        if g is not None:
            self.emit('} else {'); self.ind += 1
            may = self.scoped(g) or may
            self.ind -= 1
        self.emit('}')
        return may
    def scoped(self, f):
        self.guards.append(0); sm = self.abrupt; self.abrupt = False
        f()
        for _ in range(self.guards.pop()): self.ind -= 1; self.emit('}')
        may = self.abrupt; self.abrupt = sm
        return may
    def guard(self):
        """control may have left: the rest of this statement only runs when it has not"""
        self.emit('if ctl == 0 {'); self.ind += 1; self.guards[-1] += 1; self.abrupt = True
    def need_ctl(self):
        if 'let mut ctl: int = 0;' not in self.decls: self.decls.append('let mut ctl: int = 0;')

    def evseq(self, es, how=None):
        """evaluate operands left to right, freezing values read before later side effects"""
        out = []
        for i, e in enumerate(es):
            v = self.ev(e)
            if any(has_effect(x) for x in es[i + 1:]) and not self.const(v):
                v = self.tmp2(v, self.u.rs(e['t']))
            out.append(v)
        return out
    def tmp2(self, code, rs):
        """a frozen copy that stays visible across nested guards"""
        return self.tmp(code, rs)

    def rd(self, lv, t, line):
        """read an lvalue, with the type invariant of what is read from memory"""
        code = self.read(lv)
        if lv[0] in ('idx', 'key', 'hf', 'fld', 'last') and t is not None:
            b = lv
            while b[0] == 'fld': b = b[1]
            if b[0] in ('idx', 'key', 'hf', 'last'): self.assume_ok(code, t)
        return code

    def ev(self, e):
        """value of an expression as Verus spec code; emits the statements and obligations it needs first"""
        k = e['k']; line = e['l']; u = self.u
        m = getattr(self, 'e_' + k, None)
        if m is not None: return m(e)
        if e.get('lv') or k in ('Ref', 'Member', 'Index'):
            return self.rd(self.lv(e), e['t'], line)
        raise Unsupported('expression %s%s' % (k, ' ' + e.get('cls', '') if k == 'Unsupported' and isinstance(e.get('cls'), str) else ''))
    def e_Int(self, e): return self.lit(e['v'])
    def e_Bool(self, e): return 'true' if e['v'] else 'false'
    def e_Null(self, e): return '0int'
    def e_Float(self, e): return self.flit(e['v'])
    def flit(self, v):
        if re.match(r'^-?\d+(\.0+)?(E\+?0)?$', v): return 'd_of(%s)' % self.lit(int(float(v)))
        return 'd_lit(%s)' % self.lit(int(round(float(v) * 1000000)))
    def e_Sizeof(self, e): return self.lit(e['v'])
    def e_NTTP(self, e):
        key = 'nttp:' + e['n']
        if key in self.u.syms: return self.u.syms[key]
        return self.ev(e['e'])
    def strseq(self, v):
        return 'seq![%s]' % ', '.join(self.lit(x) for x in v) if v else 'Seq::<int>::empty()'
    def e_ValueInit(self, e): return self.default(e['t'])
    def default(self, t):
        k = self.u.kind(t); rs = self.u.rs(t)
        if k == 'int': return '0int'
        if k == 'bool': return 'false'
        if k == 'dbl': return 'd_of(0)'
        if k == 'ptr': return 'p_null::<%s>()' % self.u.rs(t.to)
        if k == 'seq' and self.u.strip(t).k == 'arr':
            et = self.u.strip(t).to
            return 'Seq::new(%d, |i: int| %s)' % (self.u.strip(t).cnt, self.default(et))
        if k in ('seq', 'ostream', 'contrec'): return 'Seq::empty()'
        if k == 'ofs': return 'Ofs { open: false, path: Seq::empty() }'
        if k == 'map': return 'Map::empty()'
        if k == 'set': return 'Set::empty()'
        if k == 'pair': return 'Pair { first: %s, second: %s }' % (self.default(self.u.strip(t).targs[0]), self.default(self.u.strip(t).targs[1]))
        raise Unsupported('default value of ' + t.s)
    def e_This(self, e):
        fr = self.frame
        if fr.this[0] == 'obj': return fr.this[1]
        if self.u.kind(e['t']) == 'int': return '1int'   # address of the current object: never zero
        raise Unsupported('this as a value')
    def e_Cast(self, e):
        ck = e['ck']; s = e['e']; line = e['l']; u = self.u
        if ck == 'LValueToRValue': return self.rd(self.lv(s), s['t'], line)
        if ck in ('NoOp',):
            return self.ev(s)
        if ck == 'IntegralCast': return self.icast(self.ev(s), s['t'], e['t'])
        if ck == 'IntegralToBoolean':
            v = self.ev(s); c = self.const(v)
            if c is not None: return 'true' if c else 'false'
            return '(%s != 0)' % v
        if ck == 'PointerToBoolean':
            if u.kind(s['t']) == 'ptr': return '!%s.null' % self.paren(self.ev(s))
            return '(%s != 0)' % self.ev(s)
        if ck == 'NullToPointer':
            if u.kind(e['t']) == 'ptr': return 'p_null::<%s>()' % u.rs(e['t'].to)
            return '0int'
        if ck == 'ArrayToPointerDecay':
            if s['k'] == 'Str': return 'P { s: %s, o: 0, null: false }' % self.strseq(s['v'] + [0])
            return 'P { s: %s, o: 0, null: false }' % self.read(self.lv(s))
        if ck == 'FunctionToPointerDecay': return '0int'
        if ck in ('UserDefinedConversion', 'ConstructorConversion'): return self.ev(s)
        if ck == 'BitCast' and u.kind(e['t']) == 'ptr' and u.kind(s['t']) == 'int' and s['k'] == 'Call' and (s.get('fn') or {}).get('n') in ('alloca', '__builtin_alloca'):
            # an array on the stack, of unknown content
            sz = self.ev(s['args'][0]); to = e['t'].to; r = self.irange(to)
            a = self.fresh('al'); self.emit('let %s: Seq<%s> = nd();' % (a, u.rs(to))); self.assume('%s.len() == %s / %d' % (a, sz, r[2] // 8)); self.assume_ok('P { s: %s, o: 0, null: false }' % a, e['t'])
            return 'P { s: %s, o: 0, null: false }' % a
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast'):
            return self.ev(s)
        if ck == 'Dynamic':
            v = self.ev(s)
            to = e['t']
            to = to.to if to.k in ('ptr', 'ref') else to
            fam = u.fam(to)
            if fam is None: raise Unsupported('dynamic_cast to ' + e['t'].s)
            h = self.famvar(fam)
            v = self.tmp(v, 'int') if not re.match(r'^\w+$', v) else v
            self.ob('pointer', '%s == 0 || %s.m.dom().contains(%s)' % (v, h, v), line, 'dynamic_cast of a valid pointer')
            return '(if %s != 0 && is_%s(%s.m[%s].tag) { %s } else { 0 })' % (v, san(to.n), h, v, v)
        if ck == 'IntegralToFloating': return self.fround(e['t'], 'd_of(%s)' % self.ev(s))
        if ck == 'FloatingToIntegral':
            v = self.ev(s); r = self.irange(e['t'])
            self.ob('conversion', 'd_toint_ok(%s, %s, %s)' % (v, self.lit(r[0]), self.lit(r[1])), line, 'floating value fits the integer type')
            return 'd_trunc(%s)' % v
        if ck == 'FloatingCast': return self.fround(e['t'], self.ev(s)) if e['t'].d.get('bits') < s['t'].d.get('bits') else self.ev(s)
        if ck == 'FloatingToBoolean': return '!d_eq(%s, d_of(0))' % self.ev(s)
        if ck == 'ToVoid': self.effect(s); return '()'
        raise Unsupported('cast ' + ck)
    def fround(self, t, code):
        """the facts known about floating point are about doubles; other widths round further"""
        b = self.u.strip(t).d.get('bits')
        return code if b == 64 else 'd_round(%d, %s)' % (b, code)
    def effect(self, e):
        """evaluate for side effects only"""
        k = e['k']
        if k in ('Ref', 'Int', 'Bool', 'Null', 'Str', 'This'): return
        if k in ('Call', 'MCall', 'OCall'): self.call(e); return
        if k == 'Assign' or k == 'CAssign': self.lv(e); return
        if k == 'Un' and e['op'] in ('++', '--'): self.incdec(e, False); return
        if k == 'Cast' and e['ck'] in ('ToVoid', 'NoOp', 'UserDefinedConversion', 'LValueToRValue'): self.effect(e['e']); return
        if k == 'Throw': self.throw(e); return
        if k == 'Delete': self.e_Delete(e); return
        if k == 'Cond':
            c = self.ev(e['c'])
            if self.branch(c, lambda: self.effect(e['a']), lambda: self.effect(e['b'])): self.guard()
            return
        if k == 'Bin' and e['op'] == ',':
            self.effect(e['a']); self.effect(e['b']); return
        if e.get('lv'): self.lv(e); return
        self.ev(e)
    def e_Delete(self, e):
        v = self.ev(e['e']); t = e['e']['t']
        if self.u.kind(t) == 'int' and t.k == 'ptr' and self.u.fam(t.to):
            h = self.famvar(self.u.fam(t.to))
            v = self.tmp(v, 'int')
            self.ob('pointer', '%s == 0 || %s.m.dom().contains(%s)' % (v, h, v), e['l'], 'delete of a valid pointer')
            self.write(('var', h), '%s { m: %s.m.remove(%s), ..%s }' % (FAMILIES[self.u.fam(t.to)][1], h, v, h))
        self.u.assumptions.add('delete removes the object itself from the model, not the objects its destructor deletes in turn: using one of those afterwards is not decided by the proof (the replay drivers run under AddressSanitizer)')
        return '()'
    def e_Un(self, e):
        op = e['op']; line = e['l']
        if op in ('++', '--'): return self.incdec(e, True)
        if op == '!': 
            return '!%s' % self.paren(self.ev(e['e']))
        if op == '-':
            if self.u.kind(e['t']) == 'dbl': return 'd_sub(d_of(0), %s)' % self.ev(e['e'])
            v = self.ev(e['e']); c = self.const(v)
            if c is not None: return self.lit(-c)
            return self.arith('-', '0int', v, e['t'], line)
        if op == '+': return self.ev(e['e'])
        if op == '~':
            v = self.ev(e['e']); c = self.const(v)
            lo, hi, b, s = self.irange(e['t'])
            if c is None: return '(-%s - 1)' % self.paren(v) if s else '(%d - %s)' % (hi, self.paren(v))
            c = ~c
            if not s: c &= (1 << b) - 1
            return self.lit(c)
        if op == '&':
            return self.addr(e['e'])
        if op == '*': return self.rd(self.lv(e), e['t'], line)
        if op == '__extension__': return self.ev(e['e'])
        raise Unsupported('unary ' + op)
    def addr(self, s):
        u = self.u
        while s['k'] == 'Cast' and s['ck'] == 'NoOp': s = s['e']
        if s['k'] == 'Index':
            b = s['b']
            if b['k'] == 'Cast' and b['ck'] == 'ArrayToPointerDecay':
                arr = self.read(self.lv(b['e'])); i = self.ev(s['i'])
                self.ob('bounds', '0 <= %s <= %s.len()' % (i, self.paren(arr)), s['l'], 'address inside the array')
                return 'P { s: %s, o: %s, null: false }' % (arr, i)
            p = self.ev(b); i = self.ev(s['i'])
            return 'p_add(%s, %s)' % (p, i)
        if s['k'] == 'OCall' and s['op'] == '[]' and u.kind(s['args'][0]['t']) == 'seq':
            arr = self.ev(s['args'][0]) if not s['args'][0].get('lv') else self.read(self.lv(s['args'][0])); i = self.ev(s['args'][1])
            self.ob('bounds', '0 <= %s <= %s.len()' % (i, self.paren(arr)), s['l'], 'address inside the string')
            return 'P { s: %s.push(0int), o: %s, null: false }' % (self.paren(arr), i)
        t = s['t']
        lv = self.lv(s)
        if lv[0] == 'obj': return lv[1]
        if lv[0] == 'val' and lv[1] in u.syms.values(): return lv[1]
        if t.k == 'builtin' or t.k == 'enum':
            return 'P { s: seq![%s], o: 0, null: false }' % self.read(lv)
        if u.kind(t) == 'int': return self.read(lv)
        if t.const and u.strip(t).n in u.valuecls and u.kind(u.strip(t)) == 'struct':
            st = u.strip(t); fnm = 'adr_%s' % san(st.n)
            decl = 'pub uninterp spec fn %s(v: %s) -> int;' % (fnm, u.rs(st))
            if decl not in u.specfns: u.specfns.append(decl)
            u.assumptions.add('an object of class %s whose address is taken does not change afterwards' % st.n)
            p = self.tmp('%s(%s)' % (fnm, self.read(lv)), 'int'); self.assume('%s > 0' % p)
            return p
        raise Unsupported('address of ' + t.s)
    def incdec(self, e, want):
        e['e']['_w'] = True
        lv = self.cap_lv(self.lv(e['e'])); t = e['e']['t']; line = e['l']
        d = e['op'][0]
        old = self.rd(lv, t, line)
        k = self.u.kind(t)
        if k == 'ptr': new = 'p_add(%s, %s)' % (old, '1' if d == '+' else '-1')
        elif k == 'int':
            r = self.irange(t)
            if r is None: raise Unsupported('++ on ' + t.s)
            lo, hi, b, s = r
            if b < 32: new = self.icast2('(%s %s 1)' % (old, d), t)
            else: new = self.arith(d, old, '1int', t, line)
        else: raise Unsupported('++ on ' + t.s)
        if want and e.get('post'): keep = self.tmp(old, self.u.rs(t))
        self.write(lv, new)
        if not want: return None
        if e.get('post'): return keep
        return self.read(lv)
    def icast2(self, code, t):
        lo, hi, b, s = self.irange(t)
        return 'wrap_%s%d(%s)' % ('i' if s else 'u', b, code)
    def e_Bin(self, e):
        op = e['op']; line = e['l']; u = self.u
        if op in ('&&', '||'):
            a = self.ev(e['a'])
            so = self.out; self.out = []; self.guards.append(0); sm = self.abrupt; self.abrupt = False
            self.ind += 1
            b = self.ev(e['b'])
            lines = self.out; self.out = so; g = self.guards.pop(); may = self.abrupt; self.abrupt = sm
            self.ind -= 1 + g
            if not lines: return '(%s %s %s)' % (a, op, b)
            t = self.hoist('bool', 'x')
            self.emit('%s = %s;' % (t, a))
            self.emit('if %s {' % (t if op == '&&' else '!' + t))
            self.out += lines
            self.ind += 1 + g
            self.emit('%s = %s;' % (t, b))
            for _ in range(g): self.ind -= 1; self.emit('}')
            self.ind -= 1
            self.emit('}')
            if may: self.guard()
            return t
        if op == ',':
            self.effect(e['a']); return self.ev(e['b'])
        ta, tb = e['a']['t'], e['b']['t']
        ka, kb = u.kind(ta), u.kind(tb)
        if op in ('==', '!=') and ka == 'ptr':
            if self.is_null(e['b']): v = '%s.null' % self.paren(self.ev(e['a']))
            elif self.is_null(e['a']): v = '%s.null' % self.paren(self.ev(e['b']))
            else:
                a, b = self.evseq([e['a'], e['b']])
                v = '(%s.o == %s.o)' % (self.paren(a), self.paren(b))
            return v if op == '==' else '!' + v
        a, b = self.evseq([e['a'], e['b']])
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if ka == 'dbl':
                v = {'==': 'd_eq(%s, %s)', '!=': '!d_eq(%s, %s)', '<': 'd_lt(%s, %s)', '<=': 'd_le(%s, %s)', '>': 'd_lt(%s, %s)', '>=': 'd_le(%s, %s)'}[op]
                return v % ((b, a) if op in ('>', '>=') else (a, b))
            if ka == 'ptr': return '(%s.o %s %s.o)' % (self.paren(a), op, self.paren(b))
            if ka == 'bool' and op in ('<', '>', '<=', '>='): a, b = 'b2i(%s)' % a, 'b2i(%s)' % b
            return '(%s %s %s)' % (a, op, b)
        if ka == 'ptr' and op in ('+', '-'):
            if kb == 'ptr': return '(%s.o - %s.o)' % (self.paren(a), self.paren(b))
            return 'p_add(%s, %s%s)' % (a, '' if op == '+' else '-', b)
        if kb == 'ptr' and op == '+': return 'p_add(%s, %s)' % (b, a)
        if u.kind(e['t']) == 'dbl':
            return self.fround(e['t'], '%s(%s, %s)' % ({'+': 'd_add', '-': 'd_sub', '*': 'd_mul', '/': 'd_div'}[op], a, b))
        return self.arith(op, a, b, e['t'], line)
    def e_Assign(self, e): return self.rd(self.lv(e), e['t'], e['l'])
    def e_CAssign(self, e): return self.rd(self.lv(e), e['t'], e['l'])
    def assign(self, e):
        u = self.u
        v = self.ev(e['b']) 
        rs = u.rs(e['a']['t'])
        if has_effect(e['a']): v = self.tmp(v, rs)
        e['a']['_w'] = True
        lv = self.lv(e['a'])
        self.write(lv, v)
        return lv
    def cassign(self, e):
        op = e['op'][:-1]; t = e['a']['t']; line = e['l']; u = self.u
        b = self.ev(e['b'])
        if has_effect(e['a']): b = self.tmp(b, u.rs(e['b']['t']))
        e['a']['_w'] = True
        lv = self.cap_lv(self.lv(e['a']))
        a = self.rd(lv, t, line)
        k = u.kind(t)
        if k == 'ptr': self.write(lv, 'p_add(%s, %s%s)' % (a, '' if op == '+' else '-', b)); return lv
        if k == 'dbl': self.write(lv, self.fround(e['ct'], '%s(%s, %s)' % ({'+': 'd_add', '-': 'd_sub', '*': 'd_mul', '/': 'd_div'}[op], a, b))); return lv
        if k == 'bool' : 
            raise Unsupported('compound assignment on bool')
        a2 = self.icast(a, t, e['clt'])
        v = self.arith(op, a2, b, e['ct'], line)
        self.write(lv, self.icast(v, e['ct'], t))
        return lv
    def e_Cond(self, e):
        c = self.ev(e['c'])
        def one(x):
            so = self.out; self.out = []; self.guards.append(0); sm = self.abrupt; self.abrupt = False
            self.ind += 1
            v = self.ev(x)
            lines = self.out; self.out = so; g = self.guards.pop(); may = self.abrupt; self.abrupt = sm
            self.ind -= 1 + g
            return v, lines, g, may
        a, b = one(e['a']), one(e['b'])
        if not a[1] and not b[1]:
            return '(if %s { %s } else { %s })' % (c, a[0], b[0])
        rs = self.u.rs(e['t'])
        t = self.hoist(rs, 'x')
        self.emit('if %s {' % c)
        for i, (v, lines, g, may) in enumerate((a, b)):
            self.out += lines
            self.ind += 1 + g; self.emit('%s = %s;' % (t, v))
            for _ in range(g): self.ind -= 1; self.emit('}')
            self.ind -= 1
            self.emit('} else {' if i == 0 else '}')
        if a[3] or b[3]: self.guard()
        return t
    def e_InitList(self, e):
        k = self.u.kind(e['t'])
        if k == 'seq':
            vs = self.evseq(e['a'])
            et = self.u.elem(e['t'])
            n = e['t'].cnt if e['t'].k == 'arr' else None
            if n and n > len(vs): vs += [self.default(et)] * (n - len(vs))
            return 'seq![%s]' % ', '.join(vs)
        raise Unsupported('initialiser list for ' + e['t'].s)
    def e_Throw(self, e): self.throw(e); return '()'
    def e_StdInitList(self, e): return self.ev(e['e'])
    def e_Lambda(self, e): raise Unsupported('lambda')
    def e_Str(self, e): return self.strseq(e['v'] + [0])

    # ---- lvalues of expressions
    def lv(self, e):
        k = e['k']; u = self.u; line = e['l']
        if k == 'Ref':
            if 'fn' in e: raise Unsupported('function value')
            if 'global' in e: return self.global_lv(e['global'], e['t'])
            fr = self.frame
            if e.get('slocal'): raise Unsupported('static local')
            if e['id'] not in fr.vars:
                raise Unsupported('variable %s outside the function' % e['n'])
            return fr.vars[e['id']]
        if k == 'Member':
            if 'global' in e: return self.global_lv(e['global'], e['t'])
            b = e['b']
            base = self.objlv(b, e['arrow'])
            cls = e.get('cls')
            if base[0] == 'obj':
                return self.hfield(base[1], cls.n, e['n'], line)
            f = e['n']
            if cls is not None and u.is_exc(cls): f = 'what_' if f == '_what' else f; sn = 'Exc'; u.need_exc()
            elif cls is not None and u.short(cls) == 'std::pair' or f in ('first', 'second') and (cls is None or cls.n not in u.p.records): sn = 'Pair'
            else:
                bt = b['t'].to if e['arrow'] else b['t']
                sn = u.rs(self.static_struct(b, e['arrow'], base))
            return ('fld', base, rname(f), sn)
        if k == 'This': raise Unsupported('this')
        if k == 'Un':
            if e['op'] == '*':
                s = e['e']
                if s['k'] == 'This': return self.frame.this
                t = s['t']
                if u.kind(t) == 'ptr':
                    return self.ptr_elem(s, None, line)
                p = self.ev(s)
                return self.deref(p, t.to, line)
            if e['op'] in ('++', '--') and not e.get('post'):
                self.incdec(e, False); return self.lv_again(e['e'])
        if k == 'Index':
            b = e['b']
            if b['k'] == 'Cast' and b['ck'] == 'ArrayToPointerDecay':
                if b['e']['k'] == 'Str':
                    s = self.strseq(b['e']['v'] + [0]); i = self.ev(e['i'])
                    self.ob('bounds', '0 <= %s < %d' % (i, len(b['e']['v']) + 1), line, 'index inside the string literal')
                    return ('idx', ('val', s), i)
                alv = self.lv(b['e'])
                if has_effect(e['i']): alv = self.cap_lv(alv)
                i = self.ev(e['i'])
                self.ob('bounds', '0 <= %s < %s.len()' % (i, self.paren(self.read(alv))), line, 'index inside the array')
                return ('idx', alv, i)
            return self.ptr_elem(b, e['i'], line)
        if k == 'Assign': return self.assign(e)
        if k == 'CAssign': return self.cassign(e)
        if k == 'Cast':
            ck = e['ck']; s = e['e']
            if ck in ('NoOp', 'BitCast'): return self.lv(s)
            if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
                b = self.lv(s)
                if u.kind(s['t']) == 'ofs' and u.kind(e['t']) == 'ostream' and 'g_fs' in u.globs:
                    o = self.tmp(self.read(b), 'Ofs'); self.roots_used.add('g_fs')
                    self.ob('pointer', '%s.open && g_fs.dom().contains(%s.path)' % (o, o), line, 'the file written to is open')
                    return ('key', ('var', 'g_fs'), '%s.path' % o, 'Seq<int>')
                if b[0] == 'obj':
                    t = e['t']
                    if u.short(t) in SEQ_CLASSES: return self.hfield(b[1], self.contcls(s['t']), 'items', line)
                    return ('obj', b[1], b[2], t)
                return b
            if ck == 'LValueToRValue':
                return ('val', self.ev(e))
            if ck in ('UserDefinedConversion', 'ConstructorConversion'): return ('val', self.ev(e))
            return ('val', self.ev(e))
        if k in ('Call', 'MCall', 'OCall'):
            r = self.call(e)
            if r[0] == 'lv': return r[1]
            t = e['t']
            if e.get('lv') and u.fam(t): return ('obj', r[1], u.fam(t), t)
            return ('val', r[1])
        if k == 'Str': return ('val', self.strseq(e['v'] + [0]))
        if k == 'Cond':
            return ('val', self.e_Cond(e))
        if k == 'Construct' or k == 'New': return ('val', self.ev(e))
        return ('val', self.ev(e))
    def lv_again(self, e):
        """lvalue of an expression already evaluated once (no effects)"""
        if has_effect(e): raise Unsupported('nested side effects')
        return self.lv(e)
    def static_struct(self, b, arrow, base):
        """struct type actually stored at base (fields of base classes are flattened into the derived struct)"""
        if base is not None and base[0] == 'var' and base[1] in self.vstruct: return self.vstruct[base[1]]
        if b['k'] == 'This' or (b['k'] == 'Un' and b['e']['k'] == 'This'): return self.frame.thisty
        while b['k'] == 'Cast' and b['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase', 'NoOp'): b = b['e']
        if b['k'] == 'This': return self.frame.thisty
        t = b['t']
        t = self.u.strip(t)
        if t.k == 'ptr': t = t.to
        return t
    def contcls(self, t):
        t = self.u.strip(t)
        if t.k == 'ptr': t = t.to
        for c in reversed(self.u.p.ancestors(t.n)):
            r = self.u.p.records.get(c)
            if r and any(self.u.short(b) in SEQ_CLASSES for b in r['bases']): return c
        return t.n
    def global_lv(self, q, t):
        g = self.u.p.globals.get(q)
        if g and 'v' in g: return ('val', self.lit(g['v']))
        if q in ('std::cout', 'std::cerr'):
            v = 'g_cout' if q == 'std::cout' else 'g_cerr'
            self.roots_used.add(v); return ('var', v)
        key = 'global:' + q
        if key in self.u.syms: return ('val', self.u.syms[key])
        if g is None or not t.const:
            raise Unsupported('global variable ' + q)
        raise Unsupported('global variable ' + q)
    def objlv(self, b, arrow):
        """lvalue of the object a member access or method call is applied to"""
        u = self.u
        while b['k'] == 'Cast' and b['ck'] == 'NoOp' and b['e']['k'] in ('This', 'Cast'): b = b['e']
        if b['k'] == 'This': 
            return self.frame.this
        if not arrow:
            return self.lv(b)
        # pointer
        x = b
        while x['k'] == 'Cast' and x['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase', 'NoOp', 'BaseToDerived') and x['e']['k'] != 'This' and x['ck'] != 'BaseToDerived':
            x = x['e']
        if x['k'] == 'Cast' and x['e']['k'] == 'This' and x['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase'):
            th = self.frame.this
            if u.short(b['t'].to) in SEQ_CLASSES and th[0] == 'obj':
                return self.hfield(th[1], self.contcls(x['e']['t']), 'items', b['l'])
            return th
        if x['k'] == 'OCall' and x['op'] == '->': 
            return self.iter_deref(x['args'][0], x['l'])
        t = x['t']
        to = t.to if t.k == 'ptr' else t
        if u.fam(to):
            p = self.ev(x)
            if u.short(b['t'].to) in SEQ_CLASSES:
                return self.hfield(p, self.contcls(to), 'items', b['l'])
            return ('obj', p, u.fam(to), to)
        if x['k'] == 'Un' and x['op'] == '&': return self.lv(x['e'])
        if t.k == 'ptr' and u.short(to) in PTR_STREAMS:
            g = PTR_STREAMS[u.short(to)]
            if g not in u.globs: raise Unsupported('stream pointer')
            self.roots_used.add(g)
            p = self.ev(x)
            self.ob('pointer', '%s.dom().contains(%s)' % (g, p), b['l'], 'stream pointer is valid')
            return ('key', ('var', g), p, 'int')
        if t.k == 'ptr' and to.k == 'rec' and (u.strip(to).n in u.valuecls or u.strip(to).n in u.heapvals):
            pv = self.ev(x); v = self.constobj(pv, to, b['l']) if u.strip(to).n not in u.heapvals else None
            if v is None: v = self.heapval(pv, to, b['l'])
            if v is not None: return v
        return ('val', self.ev(x))
    def ptr_path(self, e):
        """(lvalue of the underlying sequence, offset code) for a pointer expression"""
        u = self.u
        while e['k'] == 'Cast' and e['ck'] in ('NoOp', 'BitCast'): e = e['e']
        if e['k'] == 'Cast' and e['ck'] == 'ArrayToPointerDecay':
            return self.lv(e['e']), '0int'
        if e['k'] == 'Un' and e['op'] == '&' and e['e']['k'] == 'Index':
            b, o = self.ptr_path(e['e']['b']); i = self.ev(e['e']['i'])
            return b, i if o == '0int' else '(%s + %s)' % (o, i)
        if e['k'] == 'Un' and e['op'] == '&':
            raise Unsupported('write through address')
        if e['k'] == 'Bin' and e['op'] == '+' and u.kind(e['a']['t']) == 'ptr':
            b, o = self.ptr_path(e['a']); i = self.ev(e['b'])
            return b, i if o == '0int' else '(%s + %s)' % (o, i)
        if e['k'] == 'Cast' and e['ck'] == 'LValueToRValue':
            plv = self.lv(e['e'])
            return ('fld', plv, 's', 'P'), '%s.o' % self.paren(self.read(plv))
        raise Unsupported('write through pointer expression ' + e['k'])
    def ptr_elem(self, b, i, line):
        try:
            blv, off = self.ptr_path(b)
        except Unsupported:
            p = self.tmp(self.ev(b), self.u.rs(b['t']))
            blv, off = ('fld', ('val', p), 's', 'P'), p + '.o'
        if i is not None:
            if has_effect(i): blv = self.cap_lv(blv)
            iv = self.ev(i)
            off = iv if off == '0int' else '(%s + %s)' % (off, iv)
        if blv[0] == 'fld' and blv[3] == 'P':
            pc = self.read(blv[1])
            self.ob('pointer', '!%s.null && 0 <= %s < %s.s.len()' % (self.paren(pc), off, self.paren(pc)), line, 'pointer access inside the array')
        else:
            self.ob('bounds', '0 <= %s < %s.len()' % (off, self.paren(self.read(blv))), line, 'index inside the array')
        return ('idx', blv, off)
    def iter_deref(self, e, line):
        """element an iterator points to"""
        it = self.ev(e)
        it = self.tmp(it, self.u.rs(e['t'])) if not re.match(r'^\w+$', it) else it
        self.ob('bounds', '0 <= %s.i < %s.c.len()' % (it, it), line, 'iterator points to an element')
        return ('idx', ('fld', ('val', it), 'c', 'It'), it + '.i')

    # ---- calls
    def call(self, e):
        """('v', code) or ('lv', lvalue)"""
        import lib
        k = e['k']; u = self.u; line = e['l']
        fn = e.get('fn')
        if fn is None: raise Unsupported('indirect call')
        m = fn['m']
        # operands
        if k == 'MCall':
            basee, arrow, args = e['b'], e['arrow'], e['args']
        elif k == 'OCall' and 'cls' in fn and not fn.get('static'):
            basee, arrow, args = e['args'][0], False, e['args'][1:]
        else:
            basee, arrow, args = None, False, e['args']
        if m in u.p.funcs or fn.get('inroot'):
            c = u.contract_of.get(m)
            if c is None and m not in u.p.funcs: c = u.virtual_contract(fn)
            if fn['cls'].n in OPAQUE if 'cls' in fn else False:
                if basee is not None and not (self.frame.thisty is not None and basee['k'] == 'This') and fn['cls'].n not in u.valuecls:
                    r = lib.opaque_call(self, e, fn, basee, arrow, args)
                    if r is not None: return r
            thislv = None
            if basee is not None:
                thislv = self.objlv(basee, arrow) if not (k == 'OCall') else self.lv(basee)
                if thislv[0] == 'val' and u.kind(fn['cls']) == 'struct':
                    t = self.hoist(u.rs(fn['cls']), 'x'); self.emit('%s = %s;' % (t, thislv[1])); thislv = ('var', t); self.vstruct[t] = u.strip(basee['t'])
            if thislv is not None and thislv[0] != 'obj':
                sm = u.special(m, self.lvty(thislv))
                if sm != m: m = sm; fn = dict(u.p.funcs[m]['f'], virt=False); c = u.contract_of.get(m)
            f = u.p.funcs.get(m)
            virt = fn.get('virt') and not e.get('qual') and not self.in_ctor_this(basee)
            if c is not None and virt and thislv is not None and not c.opts.get('virtual') and self.overridden(fn, m, thislv):
                return self.call_virtual(e, fn, thislv, args, line)
            if c is not None and not (f is not None and m in self.inline_forced):
                return self.call_contract(c, fn, m, thislv, args, line)
            if virt: return self.call_virtual(e, fn, thislv, args, line)
            if f is None: 
                r = lib.call(self, e, fn, basee, arrow, args)
                if r is not None: return r
                raise Unsupported('no body and no contract for ' + fn['n'])
            return self.call_inline(f, thislv, args, line)
        r = lib.call(self, e, fn, basee, arrow, args)
        if r is None: raise Unsupported('library function %s' % fn['n'])
        return r
    def e_Call(self, e):
        r = self.call(e)
        return self.rd(r[1], e['t'], e['l']) if r[0] == 'lv' else r[1]
    e_MCall = e_Call
    e_OCall = e_Call
    def in_ctor_this(self, basee):
        return basee is not None and basee['k'] in ('This',) and self.frame.ctor or (basee is not None and basee['k'] == 'Cast' and basee['e']['k'] == 'This' and self.frame.ctor)
    def bind_arg(self, pt, a):
        """argument for a parameter of type pt: ('lv', lv) for references, ('v', code) otherwise"""
        if pt.k in ('ref', 'rref'):
            if a.get('lv') and not (a['k'] == 'Construct'):
                lv = self.lv(a)
                return ('lv', lv)
            return ('v', self.ev(a))
        return ('v', self.ev(a))
    def evargs(self, ptypes, args):
        out = []
        for i, (pt, a) in enumerate(zip(ptypes, args)):
            b = self.bind_arg(pt, a)
            if b[0] == 'v' and any(has_effect(x) for x in args[i + 1:]) and self.const(b[1]) is None:
                b = ('v', self.tmp(b[1], self.u.rs(pt)))
            out.append(b)
        return out
    def overridden(self, fn, m, thislv):
        """may the call run another method than m?"""
        u = self.u; fam = u.fam(fn['cls'])
        if fam is not None and thislv[0] == 'obj':
            cs = [c for c in u.fam_classes(fam) if not u.p.records[c].get('abstract') and u.p.isa(c, fn['cls'].n)]
        else:
            st = self.lvty(thislv)
            if st is None or st.k != 'rec': return False
            cs = [c for c in u.p.subclasses(st.n) if not u.p.records[c].get('abstract')]
        r = any(self.final_impl(c, fn) not in (None, m) for c in cs)
        import os
        if r and os.environ.get('VC_DEBUG'): print('overridden', fn['n'], thislv, cs)
        return r
    def call_virtual(self, e, fn, thislv, args, line):
        u = self.u; fam = u.fam(fn['cls'])
        if fam is None or thislv[0] != 'obj':
            st = self.lvty(thislv) if thislv is not None else None
            if st is not None and st.k == 'rec':
                impls = {self.final_impl(c, fn) for c in u.p.subclasses(st.n) if not u.p.records[c].get('abstract')} - {None}
                if len(impls) == 1:
                    mm = u.special(impls.pop(), st); c = u.contract_of.get(mm); f = u.p.funcs.get(mm)
                    if c is not None: return self.call_contract(c, f['f'] if f else fn, mm, thislv, args, line)
                    if f is not None: return self.call_inline(f, thislv, args, line)
            f = u.p.funcs.get(fn['m'])
            if f is None: raise Unsupported('virtual call to ' + fn['n'])
            return self.call_inline(f, thislv, args, line)
        h = self.famvar(fam)
        thislv = self.cap_lv(thislv); p = thislv[1]
        impl = {}
        for c in u.fam_classes(fam):
            if u.p.records[c].get('abstract') or not u.p.isa(c, fn['cls'].n): continue
            mm = self.final_impl(c, fn)
            impl.setdefault(mm, []).append(u.tag(c))
        if p != 'this_': self.ob('pointer', '%s.m.dom().contains(%s) && is_%s(%s.m[%s].tag)' % (h, p, san(fn['cls'].n), h, p), line, 'pointer is valid')
        items = sorted(impl.items(), key=lambda x: str(x[0]))
        if not items: raise Unsupported('no implementation of ' + fn['n'])
        def one(mm):
            c = u.contract_of.get(mm); f = u.p.funcs.get(mm)
            if c is not None: return self.call_contract(c, f['f'], mm, thislv, args, line)
            if f is None: raise Unsupported('no body for virtual ' + str(mm))
            return self.call_inline(f, thislv, args, line)
        if len(items) == 1: return one(items[0][0])
        rt = u.rs(fn['ret'])
        res = self.hoist(rt, 'x') if rt != '()' else None
        may = False
        for i, (mm, tags) in enumerate(items):
            cond = ' || '.join('%s.m[%s].tag == %d' % (h, p, t) for t in tags)
            self.emit('%sif %s {' % ('} else ' if i else '', cond)); self.ind += 1
            def body():
                r = one(mm)
                if res: self.emit('%s = %s;' % (res, r[1] if r[0] == 'v' else self.read(r[1])))
            may = self.scoped(body) or may
            self.ind -= 1
        self.emit('}')
        if may: self.guard()
        return ('v', res or '()')
    def final_impl(self, cls, fn):
        """mangled name of the method cls runs for virtual fn"""
        nm = fn['n'].split('::')[-1]; key = (nm, [x.s for x in fn['p']], bool(fn.get('cm')))
        for c in [cls] + [a for a in self.u.p.ancestors(cls) if a != cls]:
            r = self.u.p.records.get(c)
            if not r: continue
            for m in r['methods']:
                f = m['f']
                if (f['n'].split('::')[-1], [x.s for x in f['p']], bool(f.get('cm'))) == key and not m.get('pure'): return f['m']
        return None

    def aliases(self, c):
        """parameters that are references to a part of this object: name -> path"""
        return dict(x.split('=', 1) for x in (c.opts.get('alias') or '').split(';') if x)
    def part(self, thislv, cls, path):
        """the part of an object a path names: this.f[this.g].h, [last] for the last element"""
        u = self.u; lv = thislv; t = cls
        toks = re.findall(r'\.(\w+)|\[(last|this\.\w+)\]', path)
        for f, i in toks:
            if f:
                fld = next(((ff, ft) for c, ff, ft in u.p.all_fields(t.n) if rname(ff) == rname(f)), None) if t.n in u.p.records else None
                if fld is None: raise Unsupported('no field %s in %s' % (f, t.s))
                lv = ('fld', lv, rname(f), u.rs(t)); t = u.strip(fld[1])
            else:
                b = self.read(lv)
                code = '(%s.len() - 1)' % self.paren(b) if i == 'last' else '%s.%s' % (self.paren(self.read(thislv)), rname(i.split('.')[1]))
                lv = ('idx', lv, code); t = u.strip(u.elem(t))
        return lv
    def same_part(self, a, b, line, desc):
        """obligation that two lvalues are the same place"""
        if a[0] == 'last': a = ('idx', a[1], '(%s.len() - 1)' % self.paren(self.read(a[1])))
        if a[0] != b[0]: raise Unsupported('argument is another object than the contract says')
        if a[0] == 'var':
            if a[1] != b[1]: raise Unsupported('argument is another object than the contract says')
            return
        if a[0] == 'fld':
            if a[2] != b[2]: raise Unsupported('argument is another object than the contract says')
        elif a[0] == 'idx': self.ob('alias', '%s == %s && 0 <= %s < %s.len()' % (a[2], b[2], b[2], self.paren(self.read(b[1]))), line, desc)
        else: raise Unsupported('argument is another object than the contract says')
        self.same_part(a[1], b[1], line, desc)
    def ckey(self, c, m):
        """generate (once) the spec functions of a contract; returns its key and signature"""
        u = self.u
        if not hasattr(u, 'ckeys'): u.ckeys = {}
        if m in u.ckeys: return u.ckeys[m]
        f = u.p.funcs.get(m)
        if f is not None:
            params = [(p['n'], p['t']) for p in f['params']]; fr = f['f']; names = c.params or (u.snap.get(f['name'] + '|' + m, {}).get('params')) or [p[0] for p in params]
        else:
            fr = self.cur_fn; params = [('a%d' % i, t) for i, t in enumerate(fr['p'])]; names = c.params or [p[0] for p in params]
        params = list(zip(names, [p[1] for p in params]))
        if c.params and len(c.params) != len(fr['p']): raise Unsupported('contract of %s: number of parameters changed' % c.name)
        cls = fr.get('cls'); isctor = fr['n'].endswith('(ctor)')
        ins = []
        if cls is not None and not fr.get('static'):
            ins.append(('this', 'int' if u.kind(cls) in ('obj', 'int') else u.rs(cls), cls))
        al = self.aliases(c)
        for a in al:
            if a not in names: raise Unsupported('contract %s: no parameter %s' % (c.name, a))
        for nm, pt in params:
            if nm not in al: ins.append((nm, u.rs(pt), pt))
            elif not (pt.k == 'ref' and ins and ins[0][0] == 'this'): raise Unsupported('contract %s: %s is not a reference' % (c.name, nm))
        txt = ' '.join(x.text for x in c.requires + c.ensures + c.throws) + ' ' + ' '.join(c.modifies)
        for root in [FAMILIES[b][0] for b in FAMILIES] + ['g_cout', 'g_cerr'] + sorted(u.globs):
            if re.search(r'(?<![\w.])%s\b' % root, txt): ins.append((root, u.root_type(root), None))
        mods = []
        for x in c.modifies:
            r = x.split('.')[0]
            if r not in mods: mods.append(r)
        if c.maythrow: u.need_exc()
        for r in mods:
            if r not in [i[0] for i in ins]: raise Unsupported('contract %s modifies unknown %s' % (c.name, r))
        retty = fr['ret']; rrs = u.rs(retty) if retty is not None else '()'
        if isctor: rrs = '()'
        if c.opts.get('refret'): rrs = 'int'
        K = 'c%d_%s' % (len(u.ckeys) + 1, san(fr['n'].replace('(ctor)', 'ctor')).replace('(', '').replace(')', '')[:60])
        env0 = {n: rname(n) + '0' for n, _, _ in ins}
        env1 = dict(env0); env1.update({n: rname(n) + '1' for n in mods}); env1['$ret'] = 'ret'; env1['$exc'] = 'exc'
        pin = ', '.join('%s0: %s' % (rname(n), t) for n, t, _ in ins)
        pout = ', '.join('%s1: %s' % (rname(n), next(t for a, t, _ in ins if a == n)) for n in mods)
        sf = []
        for i, cl in enumerate(c.requires):
            sf.append('pub open spec fn pre_%s_%d(%s) -> bool { %s }' % (K, i, pin, subst(cl.text, env0, env0)))
        post = ' && '.join('(%s)' % subst(cl.text, env1, env0) for cl in c.ensures) or 'true'
        allp = ', '.join(x for x in (pin, pout) if x)
        sf.append('pub open spec fn post_%s(%s) -> bool { %s }' % (K, ', '.join(x for x in (allp, 'ret: %s' % rrs) if x), post))
        if c.maythrow:
            thr = ' && '.join('(%s)' % subst(cl.text, env1, env0) for cl in c.throws) or 'true'
            sf.append('pub open spec fn thr_%s(%s) -> bool { %s }' % (K, ', '.join(x for x in (allp, 'exc: Exc') if x), thr))
        info = dict(K=K, ins=ins, mods=mods, ret=rrs, retty=retty, isctor=isctor, c=c, alias=[al.get(nm) for nm, _ in params])
        u.ckeys[m] = info
        u.specfns += ['\n'.join(sf)]
        return info
    def call_contract(self, c, fn, m, thislv, args, line):
        u = self.u
        self.cur_fn = fn
        info = self.ckey(c, m)
        self.callees.add(m)
        short = re.sub(r'(?<=\w)<.*>$', '', fn['n'].split('::')[-1])
        if 'cls' in fn and short in ('(ctor)', '(dtor)'): short = fn['n'].split('::')[-2] + short
        cnt = self.calls.get(short, 0) + 1; self.calls[short] = cnt
        ptypes = fn['p']
        bound = self.evargs(ptypes, args)
        if any(info['alias']):
            for b, path in zip(bound, info['alias']):
                if path: self.same_part(b[1] if b[0] == 'lv' else ('val',), self.part(thislv, fn['cls'], path), line, 'argument is %s' % path)
            bound = [b for b, path in zip(bound, info['alias']) if not path]
        vals = []; outs = {}
        bi = 0
        for nm, rst, ty in info['ins']:
            if nm == 'this':
                if thislv[0] == 'obj':
                    p = thislv[1]
                    if not re.match(r'^(\w+)$', p): p = self.tmp(p, 'int')
                    fam = u.fam(fn['cls']); h = self.famvar(fam)
                    if p != 'this_' and not info['isctor']:
                        self.ob('pointer', '%s.m.dom().contains(%s)%s' % (h, p, '' if fn['cls'].n in FAMILIES else ' && is_%s(%s.m[%s].tag)' % (san(fn['cls'].n), h, p)), line, 'method called on a valid %s' % fn['cls'].n)
                    vals.append(p)
                else:
                    thislv = self.cap_lv(thislv)
                    outs['this'] = thislv
                    code = self.read(thislv)
                    code = self.upcast(code, thislv, fn['cls'])
                    vals.append(code)
            elif ty is not None:
                b = bound[bi]; bi += 1
                if b[0] == 'lv':
                    lv = self.cap_lv(b[1]) if nm in info['mods'] else b[1]
                    outs[nm] = lv
                    if lv[0] == 'obj': vals.append(lv[1])
                    else: vals.append(self.rd(lv, ty, line))
                else: vals.append(b[1])
            else:
                self.roots_used.add(nm)
                outs[nm] = ('var', nm); vals.append(nm)
        # what the call changes is not reached twice
        mo = [(a, outs[a]) for a in info['mods'] if a in outs and outs[a][0] in ('fld', 'idx', 'key', 'last', 'var')]
        def flat(x):
            r = []
            while x[0] in ('fld', 'idx', 'key', 'last'): r.append((x[0], x[2] if x[0] in ('fld', 'idx', 'key') else '')); x = x[1]
            return [x[:2]] + r[::-1]
        for i in range(len(mo)):
            for j in range(i):
                fa, fb = flat(mo[i][1]), flat(mo[j][1])
                if all(x == y or x[0] in ('idx', 'key', 'last') for x, y in zip(fa, fb)): raise Unsupported('arguments %s and %s may be the same object' % (mo[j][0], mo[i][0]))
        self.callnames = dict(zip([i[0] for i in info['ins']], vals))
        self.hint('before call %s' % short); self.hint('before call %s#%d' % (short, cnt))
        # freeze the pre-state of what the call changes
        frozen = []
        for (nm, rst, ty), v in zip(info['ins'], vals):
            frozen.append(self.tmp(v, rst) if nm in info['mods'] or not re.match(r'^\w+$', v) else v)
        vals = frozen
        al = ', '.join(vals)
        for i, cl in enumerate(c.requires):
            self.ob('precondition', 'pre_%s_%d(%s)' % (info['K'], i, al), line, 'precondition of %s: %s' % (fn['n'], cl.text), cl.tags)
        if c.measure and self.c is not None and self.c.measure and self.c.measure.split(':')[0] == c.measure.split(':')[0]:
            env = {i[0]: v for i, v in zip(info['ins'], vals)}
            ms = [subst(x.strip(), env, env) for x in self.split_top(c.measure.split(':', 1)[1])]
            olds = ['meas_%d' % i for i in range(len(ms))]
            conds = []
            for i in range(len(ms)):
                conds.append('(' + ' && '.join(['%s == %s' % (ms[j], olds[j]) for j in range(i)] + ['0 <= %s < %s' % (ms[i], olds[i])]) + ')')
            self.ob('termination', ' || '.join(conds), line, 'recursive call of %s is on something smaller' % fn['n'])
        elif m in self.scc: u.assumptions.add('termination of the recursion through %s is not proved' % fn['n'])
        newv = []
        for nm in info['mods']:
            rst, ty = next((t, y) for a, t, y in info['ins'] if a == nm)
            parts = [x.split('.', 1)[1] for x in c.modifies if x.startswith(nm + '.')]
            t = self.fresh('n')
            if nm in c.modifies or not parts:
                self.emit('let %s: %s = nd();' % (t, rst))
            else:
                self.emit('let %s: %s = %s { %s, ..%s };' % (t, rst, rst, ', '.join('%s: nd()' % rname(x) for x in parts), vals[[i[0] for i in info['ins']].index(nm)]))
            if ty is not None: self.assume_ok(t, ty)
            newv.append(t)
        def assign_back():
            for nm, t in zip(info['mods'], newv):
                if nm in outs and outs[nm][0] != 'val':
                    self.write(outs[nm], self.downcast(t, outs[nm], fn['cls'] if nm == 'this' else None))
        oal = ', '.join(vals + newv)
        if c.maythrow:
            thr = self.fresh('thr'); ex = self.fresh('e')
            self.emit('let %s: bool = nd(); let %s: Exc = nd();' % (thr, ex))
            self.emit('if %s {' % thr); self.ind += 1
            self.assume('thr_%s(%s)' % (info['K'], ', '.join(x for x in (oal, ex) if x)))
            self.assume(' && '.join(u.ok(ex, u.p.records['JsonException']['t']) or ['true'])) if 'JsonException' in u.p.records else None
            assign_back()
            local = self.do_throw(ex)
            self.ind -= 1
            if local: self.emit('} else {'); self.ind += 1
            else: self.emit('}')
        rv = self.fresh('r')
        self.emit('let %s: %s = nd();' % (rv, info['ret'])) if not (c.maythrow and local) else None
        if c.maythrow and local:
            rv = self.hoist(info['ret'], 'r') if info['ret'] != '()' else '()'
        if info['ret'] == '()' and not (c.maythrow and local): pass
        self.assume('post_%s(%s)' % (info['K'], ', '.join(x for x in (oal, rv) if x)))
        if info['retty'] is not None and not info['isctor'] and info['ret'] not in ('()',) and not c.opts.get('refret'): self.assume_ok(rv, info['retty'])
        assign_back()
        if c.maythrow and local:
            self.ind -= 1; self.emit('}')
            self.guard()
        env = {'$ret%d' % cnt: rv}
        self.names['$ret_%s' % short.strip('()')] = rv
        self.names['$ret_%s%d' % (short.strip('()'), cnt)] = rv
        self.hint('after call %s' % short); self.hint('after call %s#%d' % (short, cnt))
        if c.opts.get('refret'):
            env = {i[0]: self.read(outs[i[0]]) if i[0] in outs and outs[i[0]][0] != 'val' else v for i, v in zip(info['ins'], vals)}
            # path such as  this[$ret].second
            mm = re.match(r'^this\[\$ret\]\.second$', c.opts['refret'])
            if not mm: raise Unsupported('refret form')
            r2 = self.hcap(rv, 'int')
            return ('lv', ('fld', ('idx', outs['this'], r2), 'second', 'Pair'))
        return ('v', rv)
    def split_top(self, s):
        out = []; d = 0; cur = ''
        for ch in s:
            if ch in '([{': d += 1
            if ch in ')]}': d -= 1
            if ch == ',' and d == 0: out.append(cur); cur = ''
            else: cur += ch
        out.append(cur)
        return out
    def upcast(self, code, lv, cls):
        """view a derived struct as its base (flattened fields)"""
        u = self.u
        t = self.lvty(lv)
        if t is None or u.kind(cls) != 'struct': return code
        sn, bn = u.rs(t), u.rs(cls)
        if sn == bn: return code
        return '%s { %s }' % (bn, ', '.join('%s: %s.%s' % (rname(f), self.paren(code), rname(f)) for c, f, ft in u.p.all_fields(cls.n)))
    def downcast(self, code, lv, cls):
        u = self.u
        if cls is None: return code
        t = self.lvty(lv)
        if t is None or u.kind(cls) != 'struct': return code
        sn, bn = u.rs(t), u.rs(cls)
        if sn == bn: return code
        return '%s { %s, ..%s }' % (sn, ', '.join('%s: %s.%s' % (rname(f), code, rname(f)) for c, f, ft in u.p.all_fields(cls.n)), self.read(lv))
    def lvty(self, lv):
        if lv[0] == 'var': return self.vstruct.get(lv[1])
        if lv[0] == 'fld' and len(lv) > 3:
            for r in self.u.p.records.values():
                if self.u.sname(r['n']) == lv[3]:
                    for c, f, ft in self.u.p.all_fields(r['n']):
                        if rname(f) == lv[2]: return self.u.strip(ft)
        if lv[0] == 'fld' and lv[2] == 'history' and 'LinearHistory' in self.u.p.records: return self.u.strip(self.u.p.records['LinearHistory']['t'])   # of an exception
        return None

    def call_inline(self, f, thislv, args, line, after_args=None):
        u = self.u; m = f['f']['m']
        if m in self.inline_stack: raise Unsupported('recursive function %s has no contract' % f['name'])
        if len(self.inline_stack) > 12: raise Unsupported('inlining too deep')
        bound = self.evargs([p['t'] for p in f['params']], args)
        if after_args: after_args()
        u.inlined.add(f['name'])
        fr = Frame(f, False)
        fr.thisty = f['f'].get('cls')
        if thislv is not None:
            fr.this = self.cap_lv(thislv)
            if fr.this[0] == 'var' and fr.this[1] in self.vstruct: fr.thisty = self.vstruct[fr.this[1]]
        for p, b in zip(f['params'], bound):
            if b[0] == 'lv':
                fr.vars[p['id']] = self.cap_lv(b[1])
            else:
                fr.vars[p['id']] = self.newvar(p['n'], p['t'], b[1])
        fr.ctor = bool(f.get('ctor'))
        rt = f['f']['ret']
        isv = rt is None or u.rs(rt) == '()' or fr.ctor
        if not isv:
            fr.retty = rt
            if rt.k == 'ref' and not rt.to.const and u.kind(rt.to) not in ('obj',) : fr.refret = True
            if not fr.refret:
                fr.ret = self.hoist(u.rs(rt), 'r')
        saved = self.frame; sfb = self.frames_below; self.frames_below = [saved] + sfb; self.frame = fr; self.inline_stack.append(m); snames = dict(self.names)
        for p in f['params']: self.names[p['n']] = self.read(fr.vars[p['id']])
        def body():
            if fr.ctor: self.ctor_inits(f)
            self.body(f['body'], True)
        # the inlined body may leave ctl at 3 (return)
        may = self.scoped(body)
        self.frame = saved; self.frames_below = sfb; self.inline_stack.pop(); self.names = snames
        if may:
            self.emit('if ctl == 3 { ctl = 0; }')
            if fr.maythrow: self.guard()
        if fr.refret:
            if fr.reflv is None: raise Unsupported('reference result')
            return ('lv', fr.reflv)
        return ('v', fr.ret or '()')
    def newvar(self, cname, t, init=None):
        u = self.u
        rs = u.rs(t)
        base = 'v_' + rname(cname); n = base; i = 1
        while n in self.usedvars: i += 1; n = '%s_%d' % (base, i)
        self.usedvars.add(n)
        self.decls.append('let mut %s: %s = nd();' % (n, rs))
        lv = ('var', n)
        self.vtypes[n] = t
        if u.kind(t) == 'struct': self.vstruct[n] = u.strip(t)
        self.note(n)
        if init is not None: self.emit('%s = %s;' % (n, init))
        return lv
    def ctor_inits(self, f):
        u = self.u; cls = f['f']['cls']
        for i in f.get('inits', []):
            if 'base' in i:
                b = i['base']
                if u.short(b) in SEQ_CLASSES:
                    th = self.frame.this
                    lv = self.hfield(th[1], cls.n, 'items', f['line']) if th[0] == 'obj' else (('fld', th, 'items', u.rs(self.frame.thisty)) if u.kind(self.frame.thisty) == 'struct' else th)
                    self.write(lv, 'Seq::empty()'); continue
                if b.n in STD_EXC:
                    a = i['e'].get('args') or []
                    if a:
                        x = self.ev(a[0])
                        if u.kind(a[0]['t']) == 'ptr': x = 'cstr(%s)' % x
                        self.write(('fld', self.frame.this, 'what_', 'Exc'), x)
                    continue
                if b.n not in u.p.records: continue
                e = i['e']
                if e['k'] != 'Construct': raise Unsupported('base initialiser')
                self.construct_at(self.frame.this, e, self.frame.thisty)
            elif 'm' in i:
                th = self.frame.this
                ft = next((t for c, n, t in u.p.all_fields(cls.n) if n == i['m']), None)
                if th[0] == 'obj': lv = self.hfield(th[1], cls.n, i['m'], f['line'])
                else:
                    sn = 'Exc' if u.is_exc(self.frame.thisty) else u.rs(self.frame.thisty)
                    fn_ = 'what_' if (sn == 'Exc' and i['m'] == '_what') else rname(i['m'])
                    lv = ('fld', th, fn_, sn)
                e = i['e']
                if e is None: continue
                if ft is not None and ft.k == 'ref':
                    if e.get('lv'):
                        tg = self.cap_lv(self.lv(e)); self.write(lv, self.read(tg))
                        if self.lvroot(lv) and self.lvroot(tg) and self.lvroot(lv) != self.lvroot(tg): self.links.append((lv, tg, ft.to.const))
                    else: self.write(lv, self.ev(e))
                    continue
                if e['k'] == 'Construct' and not e.get('copy') and u.kind(e['t']) == 'struct':
                    self.construct_at(lv, e, e['t']); continue
                if not i.get('written') and e['k'] == 'Construct' and e.get('default') and u.kind(e['t']) in ('int', 'struct'): continue
                self.write(lv, self.ev(e))
    def construct_at(self, lv, e, ty, after_args=None):
        """run a constructor of a repository class on the object at lv"""
        u = self.u; fn = e['fn']; m = fn['m']
        if after_args and (e.get('copy') or m in u.contract_of or m not in u.p.funcs): after_args(); after_args = None
        if e.get('copy'):
            self.write(lv, self.ev(e['args'][0]) if not e['args'][0].get('lv') else self.read(self.lv(e['args'][0]))); return
        c = u.contract_of.get(m); f = u.p.funcs.get(m)
        if c is not None: self.call_contract(c, fn, m, lv, e['args'], e['l']); return
        if f is None:
            # implicit default constructor: members are default initialised
            if not e['args']: self.implicit_ctor(lv, fn['cls'].n, ty, e['l'])
            return
        saved = self.vstruct
        self.call_inline(f, lv, e['args'], e['l'], after_args)
    def implicit_ctor(self, lv, cls, ty, line):
        u = self.u; r = u.p.records.get(cls)
        if r is None: return
        for b in r['bases']:
            if b.n in u.p.records and not any(f.get('ctor') and f.get('cls') is not None and f['cls'].n == b.n for f in u.p.funcs.values()): self.implicit_ctor(lv, b.n, ty, line)
        for f in r['fields']:
            if u.kind(f['t']) not in ('seq', 'map', 'set'): continue
            tgt = self.hfield(lv[1], cls, f['n'], line) if lv[0] == 'obj' else ('fld', lv, rname(f['n']), u.rs(ty))
            self.write(tgt, self.default(f['t']))
    def e_Construct(self, e):
        import lib
        u = self.u; t = e['t']; fn = e['fn']; k = u.kind(t); args = e['args']
        if e.get('copy') and not (fn['m'] in u.p.funcs and k == 'struct' and u.contract_of.get(fn['m'])):
            a = args[0]
            v = self.ev(a)
            return v
        if k == 'exc':
            u.need_exc()
            x = self.hoist('Exc', 'x')
            lv = ('var', x); self.vstruct[x] = t
            self.emit('%s = nd();' % x)
            tag = u.exc_tag(t.n)
            if fn['m'] in u.p.funcs:
                self.construct_at(lv, e, t)
            else:
                if args:
                    v = self.ev(args[0])
                    if u.kind(args[0]['t']) == 'ptr': v = 'cstr(%s)' % v
                    self.emit('%s = Exc { what_: %s, ..%s };' % (x, v, x))
            self.emit('%s = Exc { tag: %d, ..%s };' % (x, tag, x))
            return x
        if k == 'struct':
            x = self.hoist(u.rs(t), 'x'); self.vstruct[x] = t
            self.emit('%s = nd();' % x)
            self.assume_ok(x, t)
            self.construct_at(('var', x), e, t)
            return x
        r = lib.construct(self, e, t, k, args)
        if r is None: raise Unsupported('constructor of ' + t.s)
        return r
    def e_New(self, e):
        import lib
        u = self.u; t = e['at']; line = e['l']
        if e.get('array'):
            n = self.ev(e['size'])
            self.ob('bounds', '0 <= %s' % n, line, 'array size is not negative')
            et = u.rs(t)
            init = e.get('init')
            s = self.fresh('s')
            if init and init['k'] in ('ValueInit', 'InitList', 'Construct'):
                try: d = self.default(t) if u.kind(t) in ('int', 'bool', 'ptr', 'dbl') else None
                except Unsupported: d = None
            else: d = None
            if d is not None and u.kind(t) in ('int', 'bool', 'ptr', 'dbl'):
                return 'P { s: Seq::new((%s) as nat, |i: int| %s), o: 0, null: false }' % (n, d)
            self.emit('let %s: Seq<%s> = nd();' % (s, et)); self.assume('%s.len() == %s' % (s, n))
            return 'P { s: %s, o: 0, null: false }' % s
        fam = u.fam(t)
        if fam is None:
            r = lib.new(self, e, t)
            if r is None: raise Unsupported('new ' + t.s)
            return r
        v, H, O = FAMILIES[fam]; self.famvar(fam)
        if not hasattr(self, 'newno'): self.newno = {}
        newno = self.newno[t.n] = self.newno.get(t.n, 0) + 1
        p = self.hoist('int', 'p')
        def alloc():   # the arguments are evaluated first: nothing is left behind when one of them throws
            self.hint('before new %s' % t.n); self.hint('before new %s#%d' % (t.n, newno))
            self.emit('%s = nd();' % p)
            self.assume('%s > 0 && !%s.m.dom().contains(%s)' % (p, v, p))
            o = self.fresh('o')
            self.emit('let %s: %s = nd();' % (o, O))
            self.emit('%s = %s { m: %s.m.insert(%s, %s { tag: %d, ..%s }), ..%s };' % (v, H, v, p, O, u.tag(t.n), o, v))
            self.note(v)
        i = e['init']
        if i is None: raise Unsupported('new without initialiser')
        if i['k'] != 'Construct': raise Unsupported('new with ' + i['k'])
        self.construct_at(('obj', p, fam, t), i, t, alloc)
        self.names['$new'] = p
        self.hint('after new %s' % t.n); self.hint('after new %s#%d' % (t.n, newno))
        return p

    # ---- exceptions
    def do_throw(self, exc):
        """exception leaves this point; returns True when it is handled inside the verified function"""
        if self.trystack:
            self.need_ctl()
            self.emit('%s = %s; ctl = 4;' % (self.trystack[-1], exc))
            for fr in self.framechain(): fr.maythrow = True
            self.abrupt = True
            return True
        self.exit_throw(exc)
        return False
    def framechain(self):
        return [self.frame] + self.frames_below
    def throw(self, e):
        if e['e'] is None:
            if not self.catchstack: raise Unsupported('rethrow')
            x = self.catchstack[-1]
        else:
            x = self.ev(e['e'])
        self.do_throw(x)
    def exit_env(self):
        env = {}
        mods = {x.split('.')[0] for x in self.c.modifies}
        for nm, lvin in self.inputs.items():
            env[nm] = self.names.get('@' + nm, lvin[0]) if nm in mods else lvin[1]
        return env
    def exit_common(self, what):
        """frame conditions at an exit of the verified function (those of untouched roots are dropped at the end)"""
        mods = self.c.modifies
        for nm, (cur, old) in self.inputs.items():
            if cur is None or nm in mods: continue
            parts = [x.split('.', 1)[1] for x in mods if x.startswith(nm + '.')]
            self.out.append(('FRAME', '    ' * self.ind, nm, cur, old, parts, self.curline))
    def exit_normal(self, ret, line):
        self.curline = line
        env = self.exit_env()
        if ret is not None:
            env['$ret'] = ret
            self.names['$ret'] = ret
        self.hint('exit')
        self.nexits += 1
        if self.smoke: self.emit('assert(false); //@SMOKE:%s' % line)
        for cl in self.c.ensures:
            self.ob('postcondition', self.substc(cl.text, env), line, cl.text, cl.tags)
        self.exit_common('exit')
    def exit_throw(self, exc):
        line = self.curline
        if not self.c.maythrow:
            self.ob('exception', 'false', line, 'no exception leaves the function')
            self.emit('assume(false);'); return
        t = self.fresh('ex'); self.emit('let %s: Exc = %s;' % (t, exc))
        env = self.exit_env(); env['$exc'] = t; self.names['$exc'] = t
        self.hint('throw')
        for cl in self.c.throws:
            self.ob('postcondition', self.substc(cl.text, env), line, 'on exception: ' + cl.text, cl.tags)
        self.exit_common('throw')
        self.emit('assume(false);')
    def substc(self, text, env):
        try: return subst(text, env, self.olds)
        except KeyError as e: raise Unsupported('contract name %s' % e)
    def checknames(self, text, src):
        """a contract that speaks of a local variable that no longer exists does not attach"""
        known = self.snaplocals
        for m in IDENT.finditer(text):
            n = m.group(1)
            if n in known and n not in self.names: raise Unsupported('contract %s speaks of %s, which the function no longer has there' % (src, n))
    def hint(self, where):
        if self.c is None: return
        for w, code, src in self.c.hints:
            if w != where: continue
            if re.search(r'\b(assume|admit)\b', code): raise Unsupported('hint may not assume')
            self.checknames(code, src)
            for g, t in self.c.ghosts:   # ghost variables a loop assigns are unknown at its head
                if re.search(r'(^|[;{}\s])%s = ' % g, code): self.note(g)
            env = dict(self.names)
            for k, v in getattr(self, 'callnames', {}).items(): env['$' + k] = v
            if where == 'exit' or where == 'throw':
                pass
            txt = subst(code, env, self.olds)
            if re.search(r'\b[a-z_]\w*\s*\(', txt):
                o = Ob(); o.id = '%s#%d' % (self.f['name'], len(self.obs) + 1); o.fn = self.f['name']; o.kind = 'lemma'; o.line = self.curline
                o.desc = code.split('\n')[0][:200]; o.tags = []
                self.obs.append(o); mark = ' //@OB:%d' % len(self.obs)
            else: mark = ''
            for l in txt.split('\n'):
                self.out.append('    ' * self.ind + l + mark)

    # ---- statements
    def body(self, s, tail):
        self.block(s['s'] if s['k'] == 'Block' else [s], tail)
    def block(self, stmts, tail):
        stmts = [s for s in stmts if s is not None and s['k'] != 'Nop']
        for i, s in enumerate(stmts):
            last = i == len(stmts) - 1
            rest = stmts[i + 1:]
            self.curline = s['l']
            if s['k'] == 'If' and not last and (terminates(s['a']) or (s['b'] is not None and terminates(s['b']))) and not s.get('cv'):
                if s.get('init'): self.stmt(s['init'], False)
                c = self.ev(s['c'])
                A = lambda s=s, rest=rest: self.block([s['a']] + ([] if terminates(s['a']) else rest), tail)
                B = lambda s=s, rest=rest: self.block(([s['b']] if s['b'] is not None else []) + ([] if s['b'] is not None and terminates(s['b']) else rest), tail)
                if self.branch(c, A, B): self.abrupt = True
                return
            self.stmt(s, tail and last)
            if terminates(s): return
    def stmt(self, s, tail):
        k = s['k']; self.curline = s['l']
        m = getattr(self, 's_' + k, None)
        if m is None: raise Unsupported('statement ' + (s.get('cls') or k))
        m(s, tail)
    def s_Nop(self, s, tail): pass
    def s_Block(self, s, tail): self.block(s['s'], tail)
    def s_Expr(self, s, tail):
        if s['e'] is None: return
        self.effect(s['e'])
    def s_If(self, s, tail):
        if s.get('init'): self.stmt(s['init'], False)
        if s.get('cv'): self.decl(s['cv'])
        c = self.ev(s['c'])
        g = (lambda: self.block([s['b']], tail)) if s['b'] is not None else None
        if self.branch(c, lambda: self.block([s['a']], tail), g):
            if tail: self.abrupt = True
            else: self.guard()
    def s_Decl(self, s, tail):
        for d in s['d']: self.decl(d)
    def decl(self, d):
        u = self.u; t = d['t']; i = d.get('init'); fr = self.frame
        if d.get('static'):
            if not (t.const or (t.k == 'arr')) or i is None: raise Unsupported('static local variable ' + d['n'])
        if t.k in ('ref', 'rref'):
            if i.get('lv'):
                lv = self.cap_lv(self.lv(i))
                if lv[0] == 'val': lv = self.newvar(d['n'], t, lv[1])
            else: lv = self.newvar(d['n'], t, self.ev(i))
        elif t.k == 'arr':
            lv = self.newvar(d['n'], t)
            n = lv[1]
            if d.get('vla') is not None:
                sz = self.ev(d['vla'])
                self.ob('bounds', '%s > 0' % sz, d['l'], 'array size is positive')
                self.emit('%s = nd();' % n); self.assume('%s.len() == %s' % (n, sz))
            elif i is None or (i['k'] == 'Construct'):
                self.emit('%s = nd();' % n); self.assume_ok(n, t)
            elif i['k'] == 'Str':
                v = i['v'] + [0]
                v = v + [0] * (t.cnt - len(v)); v = v[:t.cnt]
                self.emit('%s = %s;' % (n, self.strseq(v)))
            else: self.emit('%s = %s;' % (n, self.ev(i)))
        elif i is None:
            lv = self.newvar(d['n'], t); self.emit('%s = nd();' % lv[1]); self.assume_ok(lv[1], t)
        elif i['k'] == 'Construct' and u.kind(t) == 'struct' and not i.get('copy'):
            lv = self.newvar(d['n'], t); self.emit('%s = nd();' % lv[1]); self.assume_ok(lv[1], t)
            self.construct_at(lv, i, t)
        else:
            v = self.ev(i)
            lv = self.newvar(d['n'], t, v)
        fr.vars[d['id']] = lv
        self.bindlocal(d['n'], lv, t)
    def bindlocal(self, cname, lv, t):
        code = self.read(lv)
        self.names[cname] = code
        if self.frame.top:
            idx = len(self.locals_seen)
            self.locals_seen.append([cname, t.s])
            for a in self.alias(idx, cname, t): self.names[a] = code
    def alias(self, idx, cname, t):
        """the name the contracts use for a renamed local: same position and type in the snapshot"""
        sl = (self.snap or {}).get('locals') or []
        cur = {d['n'] for d in self.alllocals}
        if idx < len(sl) and sl[idx][1] == t.s and sl[idx][0] != cname and sl[idx][0] not in cur and cname not in [x[0] for x in sl]:
            return [sl[idx][0]]
        # positions shifted: unique type match among missing names
        if cname not in [x[0] for x in sl]:
            miss = [x for x in sl if x[0] not in cur and x[1] == t.s]
            new = [d for d in self.alllocals if d['n'] not in [x[0] for x in sl] and d['t'].s == t.s]
            if len(miss) == 1 and len(new) == 1: return [miss[0][0]]
        return []
    def s_Return(self, s, tail):
        fr = self.frame; e = s['e']; u = self.u
        if fr.top:
            if e is not None and self.retrs != '()':
                if self.c.opts.get('refret'):
                    lv = self.lv(e)
                    # path <container>[i].second
                    x = lv
                    if x[0] == 'fld': x = x[1]
                    if x[0] == 'last': code = '(%s.len() - 1)' % self.paren(self.read(x[1]))
                    elif x[0] in ('idx', 'key'): code = x[2]
                    else: raise Unsupported('reference result')
                else: code = self.ev(e)
                r = self.fresh('ret'); self.emit('let %s: %s = %s;' % (r, self.retrs, code))
            else:
                if e is not None: self.effect(e)
                r = None
            self.exit_normal(r, s['l'])
            self.emit('assume(false);')
            return
        if e is not None and fr.retty is not None:
            if fr.refret:
                lv = self.cap_lv(self.lv(e))
                if fr.reflv is not None and fr.reflv != lv: raise Unsupported('several reference results')
                fr.reflv = lv
            else:
                self.emit('%s = %s;' % (fr.ret, self.ev(e)))
        elif e is not None: self.effect(e)
        if not tail:
            self.need_ctl(); self.emit('ctl = 3;'); self.abrupt = True
    def s_Break(self, s, tail):
        self.need_ctl(); self.emit('ctl = 1;'); self.abrupt = True
    def s_Continue(self, s, tail):
        self.need_ctl(); self.emit('ctl = 2;'); self.abrupt = True
    def s_Try(self, s, tail):
        ex = self.hoist('Exc', 'e'); self.u.need_exc(); self.need_ctl()
        self.trystack.append(ex)
        self.scoped(lambda: self.block([s['s']], False))
        self.trystack.pop()
        def rethrow():
            self.do_throw(ex)
        def chain(i):
            if i == len(s['h']): rethrow(); return
            h = s['h'][i]; t = h.get('t')
            def handle():
                self.emit('ctl = 0;')
                if h.get('v') is not None and h['v'].get('n'):
                    if self.u.kind(t) == 'exc': self.frame.vars[h['v']['id']] = ('var', ex); self.vstruct[ex] = self.u.strip(t)
                self.catchstack.append(ex)
                self.block([h['s']], False)
                self.catchstack.pop()
            if t is None: handle(); return
            subs = self.u.exc_subs(self.u.strip(t).n)
            self.abrupt = self.branch(' || '.join('%s.tag == %d' % (ex, x) for x in subs) or 'false', handle, lambda: chain(i + 1)) or self.abrupt
        may = self.branch('ctl == 4', lambda: chain(0))
        self.guard()
    def s_Switch(self, s, tail):
        v = self.tmp(self.ev(s['c']), 'int')
        items = s['s']['s'] if s['s']['k'] == 'Block' else [s['s']]
        groups = []  # (labels, stmts)
        def unwrap(x):
            labs = []
            while x is not None and x['k'] in ('Case', 'Default'):
                labs.append(x['e'] if x['k'] == 'Case' else None); x = x['s']
            return labs, x
        for x in items:
            labs, st = unwrap(x)
            if labs: groups.append((labs, [st] if st is not None else []))
            else:
                if not groups: raise Unsupported('statement before the first case')
                groups[-1][1].append(x)
        prep = []
        for labs, sts in groups:
            body = [x for x in sts if x is not None]
            if len(body) == 1 and body[0]['k'] == 'Block': body = body[0]['s']
            brk = False
            if body and body[-1]['k'] == 'Break': body = body[:-1]; brk = True
            elif body and terminates(body[-1]): brk = True
            prep.append((labs, body, brk))
        for i in range(len(prep) - 2, -1, -1):
            labs, body, brk = prep[i]
            if not brk: prep[i] = (labs, body + prep[i + 1][1], True)
        for labs, body, brk in prep:
            def inner(x):
                if isinstance(x, dict):
                    if x.get('k') == 'Break': raise Unsupported('break inside a switch case')
                    if x.get('k') in ('While', 'Do', 'For', 'RangeFor', 'Switch'): return
                    for kk, vv in x.items():
                        if kk in ('t', 'fn', 'p', 'ret', 'cls'): continue
                        inner(vv)
                elif isinstance(x, list):
                    for y in x: inner(y)
            inner(body)
        dflt = next((b for labs, b, k in prep if None in labs), [])
        cases = [(labs, b) for labs, b, k in prep if None not in labs]
        def chain(i):
            if i == len(cases): self.block(dflt, tail); return
            labs, b = cases[i]
            cond = ' || '.join('%s == %s' % (v, self.ev(l)) for l in labs)
            if self.branch(cond, lambda: self.block(b, tail), lambda: chain(i + 1)): self.abrupt = True
        if self.scoped(lambda: chain(0)):
            if tail: self.abrupt = True
            else: self.guard()

    # ---- loops
    def loop_spec(self):
        self.loopno += 1; k = self.loopno
        L = self.c.loops.get(k) if self.c is not None else None
        return k, L
    def inv_text(self, k, L):
        out = []
        for cl in (L.inv if L else []):
            self.checknames(cl.text, cl.src)
            out.append((self.subst(cl.text), cl))
        return out
    def loop(self, s, test_first, cond, inc, bodyf, auto=(), autodec=None, pre=None):
        k, L = self.loop_spec(); line = s['l']
        self.hint('loop %d' % k)
        for a in auto: self.ob('invariant', a, line, 'loop %d: %s (established)' % (k, a))
        for t, cl in self.inv_text(k, L): self.ob('invariant', t, line, 'loop %d established: %s' % (k, cl.text), cl.tags)
        saved = self.assigned; self.assigned = {}
        place = [None]; self.out.append(place); buf = self.out; ind0 = self.ind
        for a in auto: self.assume(a)
        for t, cl in self.inv_text(k, L): self.assume(t)
        names0 = dict(self.names)
        decc = None
        if L and L.dec is not None:
            self.checknames(L.dec.text, L.dec.src)
            decc = [self.subst(x.strip()) for x in self.split_top(L.dec.text)]
        elif autodec: decc = [autodec]
        d0 = []
        if decc:
            for x in decc:
                d = self.fresh('d'); self.emit('let %s: int = %s;' % (d, x)); d0.append(d)
        else: self.u.assumptions.add('termination of loop %d of %s is not proved' % (k, self.f['name']))
        def back():
            nm = self.names; self.names = dict(names0); 
            self.hint('loop %d end' % k)
            for a in auto: self.ob('invariant', a, line, 'loop %d: %s (preserved)' % (k, a))
            for t, cl in self.inv_text(k, L): self.ob('invariant', t, line, 'loop %d preserved: %s' % (k, cl.text), cl.tags)
            if decc:
                now = [self.subst(x.strip()) for x in self.split_top(L.dec.text)] if L and L.dec is not None else [autodec]
                cs = []
                for i in range(len(now)):
                    cs.append('(' + ' && '.join(['%s == %s' % (now[j], d0[j]) for j in range(i)] + ['0 <= %s' % d0[i], '%s < %s' % (now[i], d0[i])]) + ')')
                self.ob('termination', ' || '.join(cs), line, 'loop %d terminates: %s decreases' % (k, L.dec.text if L and L.dec is not None else autodec))
            self.emit('assume(false);')
            self.names = nm
        self.need_ctl()
        def onebody():
            self.hint('loop %d body' % k)
            bodyf()
        may = [False]
        if test_first:
            def whole():
                self.hint('loop %d head' % k)
                c = cond() if cond is not None else 'true'
                def inside():
                    if self.scoped(onebody): pass
                    self.emit('if ctl == 0 || ctl == 2 {'); self.ind += 1
                    def tailp():
                        self.emit('ctl = 0;')
                        if inc is not None: self.effect(inc)
                        back()
                    m = self.scoped(tailp); may[0] = may[0] or m
                    self.ind -= 1; self.emit('}')
                    self.emit('if ctl == 1 { ctl = 0; }')
                if c == 'true':
                    inside()
                else:
                    self.branch(c, inside)
            self.scoped(whole)
        else:
            def whole():
                self.scoped(onebody)
                self.emit('if ctl == 0 || ctl == 2 {'); self.ind += 1
                def tailp():
                    self.emit('ctl = 0;')
                    c = cond()
                    self.branch(c, back)
                self.scoped(tailp)
                self.ind -= 1; self.emit('}')
                self.emit('if ctl == 1 { ctl = 0; }')
            self.scoped(whole)
        got = self.assigned; self.assigned = saved
        if saved is not None:
            for r, fs in got.items(): saved.setdefault(r, set()).update(fs)
        # havoc what the loop assigns
        hv = []
        so, si = self.out, self.ind; self.out = []; self.ind = ind0
        for r in sorted(got):
            fs = got[r]
            fields = None
            if None not in fs and r in self.vstruct: fields = sorted(fs)
            if r in self.heapvars():
                self.emit('%s = nd();' % r)
            elif fields:
                rs = self.rsof(r)
                self.emit('%s = %s { %s, ..%s };' % (r, rs, ', '.join('%s: nd()' % x for x in fields), r))
                self.assume_ok(r, self.vstruct[r])
            else:
                self.emit('%s = nd();' % r)
                if r in self.vtypes: self.assume_ok(r, self.vtypes[r])
        place[:] = self.out; self.out, self.ind = so, si
        self.names = names0
        self.hint('loop %d exit' % k)
        # control may have left through a return of an inlined function or an exception
        if self.leaves(s): self.guard()
    def heapvars(self): return {v for b, (v, H, O) in FAMILIES.items()}
    def rsof(self, r):
        t = self.vstruct[r]
        return 'Exc' if self.u.is_exc(t) else self.u.rs(t)
    def leaves(self, s):
        return bool(self.trystack) or not self.frame.top
    def s_While(self, s, tail):
        if s.get('cv'): raise Unsupported('declaration in a while condition')
        self.loop(s, True, lambda: self.ev(s['c']), None, lambda: self.block([s['s']], False))
    def s_Do(self, s, tail):
        self.loop(s, False, lambda: self.ev(s['c']), None, lambda: self.block([s['s']], False))
    def s_For(self, s, tail):
        if s['i'] is not None: self.stmt(s['i'], False)
        self.loop(s, True, (lambda: self.ev(s['c'])) if s['c'] is not None else None, s['inc'], lambda: self.block([s['s']], False))
    def s_RangeFor(self, s, tail):
        import lib
        u = self.u; r = s['range']; k = self.loopno + 1
        base, seqcode, et = lib.range_items(self, r)
        v = s['v']
        byref = v['t'].k == 'ref' and not v['t'].to.const
        i = self.fresh('i'); self.decls.append('let mut %s: int = nd();' % i)
        c = self.fresh('c'); self.decls.append('let mut %s: Seq<%s> = nd();' % (c, u.rs(et)))
        self.emit('%s = 0;' % i); self.emit('%s = %s;' % (c, seqcode))
        self.assume('%s.len() <= 0x7fff_ffff' % c)
        if byref and base is not None: base = self.cap_lv(base)
        self.names['$i%d' % k] = i; self.names['$c%d' % k] = c
        self.names['$i'] = i; self.names['$c'] = c
        self.vtypes[i] = None
        del self.vtypes[i]
        def bodyf():
            self.note(i)
            if byref:
                if base is None: raise Unsupported('range for by reference')
                self.ob('bounds', '0 <= %s < %s.len()' % (i, self.paren(self.read(base))), s['l'], 'container not shrunk while iterating')
                lv = ('idx', base, i)
            else:
                if v['t'].k == 'ref':
                    lv = ('idx', ('val', c), i)
                    self.assume_ok('%s[%s]' % (c, i), et)
                else:
                    lv = self.newvar(v['n'], v['t'], '%s[%s]' % (c, i)); self.assume_ok(lv[1], v['t'])
            if not byref and base is not None:
                b2 = self.read(base)
                self.out.append(('RANGE', '    ' * self.ind, base, c, s['l'], b2))
            self.frame.vars[v['id']] = lv
            self.bindlocal(v['n'], lv, v['t'])
            self.block([s['s']], False)
        class Inc: pass
        # increment of the hidden index
        inc = {'k': 'HiddenInc', 'v': i, 'l': s['l']}
        nm = dict(self.names)
        self.loop(s, True, lambda: '%s < %s.len()' % (i, c), inc, bodyf, auto=['0 <= %s <= %s.len()' % (i, c)], autodec='%s.len() - %s' % (c, i))
    def e_HiddenInc(self, e):
        self.emit('%s = %s + 1;' % (e['v'], e['v'])); self.note(e['v']); return '()'

    # ---- the whole function
    def run(self, smoke=False):
        u = self.u; f = self.f; c = self.c; ff = f['f']
        self.smoke = smoke; self.nexits = 0
        cls = ff.get('cls'); self.retrs = '()' if ff['ret'] is None or f.get('ctor') or f.get('dtor') else u.rs(ff['ret'])
        if c.opts.get('refret'): self.retrs = 'int'
        fr = Frame(f, True); fr.thisty = cls; self.frame = fr
        fr.ctor = bool(f.get('ctor'))
        self.curline = f['line']
        info = None
        self.cur_fn = ff
        info = self.ckey(c, ff['m'])
        self.inputs = {}   # contract name -> (current code, input code)
        sig = []; pre = []
        names = c.params or (self.snap or {}).get('params') or [p['n'] for p in f['params']]
        if len(names) != len(f['params']): names = [p['n'] for p in f['params']]
        if cls is not None and not ff.get('static'):
            if u.kind(cls) in ('obj',):
                fam = u.fam(cls); h = self.famvar(fam)
                sig.append('this_: int')
                fr.this = ('obj', 'this_', fam, cls)
                self.names['this'] = 'this_'; self.inputs['this'] = (None, 'this_')
                pre.append(('%s.m.dom().contains(this_) && is_%s(%s.m[this_].tag) && this_ > 0' % (h, san(cls.n), h)))
            elif u.kind(cls) == 'int':
                sig.append('this_: int'); fr.this = ('val', 'this_'); self.names['this'] = 'this_'; self.inputs['this'] = (None, 'this_')
            else:
                rs = u.rs(cls)
                sig.append('this_in: %s' % rs)
                self.emit('let mut this_: %s = this_in;' % rs)
                fr.this = ('var', 'this_'); self.vstruct['this_'] = cls; self.vtypes['this_'] = cls
                self.names['this'] = 'this_'; self.olds['this'] = 'this_in'; self.inputs['this'] = ('this_', 'this_in')
                if not f.get('ctor'): self.assume_ok('this_in', cls)
                else: self.assume_ok('this_in', cls)
        al = self.aliases(c)
        for p, nm in zip(f['params'], names):
            if nm in al:
                lv = self.part(fr.this, cls, al[nm])
                def frz(x):
                    if x[0] == 'var': return x
                    if x[0] == 'fld': return ('fld', frz(x[1])) + x[2:]
                    t = self.fresh('al'); self.emit('let %s: int = %s;' % (t, x[2])); return ('idx', frz(x[1]), t)
                fr.vars[p['id']] = frz(lv)
                self.names[p['n']] = self.names[nm] = self.read(fr.vars[p['id']]); continue
            rs = u.rs(p['t']); n = rname('p_' + p['n'] if p['n'] else 'p_anon%d' % len(sig)); 
            isobj = u.kind(p['t']) == 'obj'
            sig.append('%s_in: %s' % (n, rs))
            self.usedvars.add(n)
            if isobj:
                fr.vars[p['id']] = ('obj', n + '_in', u.fam(u.strip(p['t'])), u.strip(p['t']))
                self.names[p['n']] = self.names[nm] = n + '_in'; self.olds[p['n']] = self.olds[nm] = n + '_in'; self.inputs[nm] = (None, n + '_in'); continue
            self.emit('let mut %s: %s = %s_in;' % (n, rs, n))
            lv = ('var', n); self.vtypes[n] = p['t']
            if u.kind(p['t']) in ('struct', 'exc'): self.vstruct[n] = u.strip(p['t'])
            fr.vars[p['id']] = lv
            self.names[p['n']] = self.names[nm] = n; self.olds[p['n']] = self.olds[nm] = n + '_in'
            isref = p['t'].k == 'ref' and not p['t'].to.const
            self.inputs[nm] = (n if isref else None, n + '_in')
            self.assume_ok(n + '_in', p['t'])
        for nm, rst, ty in info['ins']:
            if ty is None and nm not in self.inputs: self.roots_used.add(nm)
        headpos = len(self.out)
        self.out.append(('ROOTS',))
        for root in list(FAMILIES[b][0] for b in FAMILIES) + ['g_cout', 'g_cerr'] + sorted(u.globs):
            self.names[root] = root; self.olds[root] = root + '_in'; self.inputs[root] = (root, root + '_in')
        for x in pre: self.assume(x)
        for nm in (c.opts.get('maxlen') or '').split(','):
            import lib
            if nm in self.inputs: lib.length(self, self.inputs[nm][1])
        for cl in c.requires: self.assume(self.substc(cl.text, {k: v[1] for k, v in self.inputs.items()}))
        if c.measure:
            for i, x in enumerate(self.split_top(c.measure.split(':', 1)[1])):
                self.emit('let meas_%d: int = %s;' % (i, self.subst(x.strip())))
        self.out.append(('DECLS',))
        for k, v in u.syms.items():
            if k.startswith('entry:'): self.emit('%s;' % v)
        for g, t in c.ghosts: self.emit('let mut %s: %s = nd();' % (g, t))
        self.hint('entry')
        self.inline_stack.append(ff['m'])
        def all_():
            if f.get('ctor'): self.ctor_inits(f)
            self.block([f['body']], True)
            b = f['body']
            if not terminates(b):
                le = b.get('le', f['line'])
                def fin(): self.exit_normal(None, le)
                if self.retrs == '()': fin()
        self.scoped(all_)
        # the contract's loops must all have been met
        for k in c.loops:
            if k > self.loopno: raise Unsupported('contract names loop %d, the function has %d' % (k, self.loopno))
        nl = (self.snap or {}).get('loops')
        if nl is not None and nl != self.loopno and c.loops: raise Unsupported('the function has %d loops, its contract was written for %d' % (self.loopno, nl))
        return self.finish(sig, info)
    def finish(self, sig, info):
        u = self.u
        roots = sorted(self.roots_used)
        for r in roots: sig.append('%s_in: %s' % (r, u.root_type(r)))
        lines = []
        def put(items):
            for x in items:
                if isinstance(x, str): lines.append(x)
                elif isinstance(x, list): put(x)
                elif x[0] == 'ROOTS':
                    for r in roots: lines.append('    let mut %s: %s = %s_in;' % (r, u.root_type(r), r))
                elif x[0] == 'DECLS':
                    for d in self.decls: lines.append('    ' + d)
                elif x[0] == 'RANGE':
                    _, ind, base, c, line, code = x
                    b = base
                    while b[0] not in ('var', 'hf', 'val', 'obj'): b = b[1]
                    root = b[1]
                    if b[0] in ('var', 'hf') and root in self.written and not self.rangesafe(base):
                        o = Ob(); o.id = '%s#%d' % (self.f['name'], len(self.obs) + 1); o.fn = self.f['name']; o.kind = 'frame'; o.line = line
                        o.desc = 'the container is not changed while it is iterated'; o.tags = []
                        self.obs.append(o)
                        lines.append('%sassert(%s =~= %s); //@OB:%d' % (ind, code, c, len(self.obs)))
                elif x[0] == 'FRAME':
                    _, ind, nm, cur, old, parts, line = x
                    if cur not in self.written or (nm in [FAMILIES[b][0] for b in FAMILIES] + ['g_cout', 'g_cerr'] and nm not in roots): continue
                    def fob(cond):
                        o = Ob(); o.id = '%s#%d' % (self.f['name'], len(self.obs) + 1); o.fn = self.f['name']; o.kind = 'frame'; o.line = line
                        o.desc = 'only what the contract lists is modified: ' + cond; o.tags = []
                        self.obs.append(o)
                        lines.append('%sassert(%s); //@OB:%d' % (ind, cond, len(self.obs)))
                    if not parts: fob('%s == %s' % (cur, old))
                    else:
                        t = self.vstruct.get(cur)
                        if t is not None:
                            for cc, fn_, ft in u.p.all_fields(t.n):
                                if rname(fn_) not in parts and fn_ not in parts: fob('%s.%s == %s.%s' % (cur, rname(fn_), old, rname(fn_)))
                        else: fob('%s == %s' % (cur, old))
        put(self.out)
        nm = 'f_' + info['K']
        return nm, ['#[verifier::spinoff_prover] pub proof fn %s(%s)' % (nm, ', '.join(sig)), '{'] + ['    hide(%s);' % x for x in self.c.hide] + lines + ['}']
    def rangesafe(self, base):
        """the iterated container lives in a root only other fields of which are written"""
        b = base; top = None
        while b[0] not in ('var', 'hf'):
            if b[0] == 'fld' and b[1][0] == 'var': top = b[2]
            b = b[1]
        fs = self.written.get(b[1], set())
        return top is not None and None not in fs and top not in fs
