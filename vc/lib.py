"""Model of the standard library calls the program makes: each call is translated to an operation on mathematical
sequences, maps and streams (the assumed contracts of the library; listed in the evidence as trusted)."""
import re
from tr import Unsupported, SEQ_CLASSES, has_effect, rname

MAXLEN = 'no string or container holds more than 2^31-1 elements'
def par(tr, s): return tr.paren(s)

def literal(a):
    """bytes of a string literal argument without inner NUL"""
    while a['k'] == 'Cast' and a['ck'] in ('NoOp', 'ArrayToPointerDecay'): a = a['e']
    if a['k'] == 'Str' and 0 not in a['v']: return a['v']
    return None
def cstr_arg(tr, a):
    """contents of a NUL terminated const char * argument"""
    v = literal(a)
    if v is not None: return tr.strseq(v)
    x = a
    while x['k'] == 'Cast' and x['ck'] in ('NoOp',): x = x['e']
    if x['k'] == 'Cond' and literal(x['a']) is not None and literal(x['b']) is not None:
        return '(if %s { %s } else { %s })' % (tr.ev(x['c']), tr.strseq(literal(x['a'])), tr.strseq(literal(x['b'])))
    x = a
    while x['k'] == 'Cast' and x['ck'] in ('NoOp',): x = x['e']
    if x['k'] == 'MCall' and x['fn']['n'].split('::')[-1] in ('c_str', 'data') and tr.u.kind(x['b']['t'].to if x['arrow'] else x['b']['t']) == 'seq':
        s = tr.read(tr.objlv(x['b'], x['arrow']))
        return 'upto_nul(%s)' % s
    p = tr.ev(a)
    m = re.match(r'^c_str\((\w+(?:\.\w+)*)\)$', p)
    if m: return 'upto_nul(%s)' % m.group(1)
    p = tr.tmp(p, tr.u.rs(a['t']))
    tr.ob('pointer', '!%s.null && 0 <= %s.o && has_nul(%s.s, %s.o)' % (p, p, p, p), a['l'], 'pointer to a terminated string')
    return 'cstr(%s)' % p
def strval(tr, a):
    """a std::string / const char* / char argument as a sequence"""
    k = tr.u.kind(a['t'])
    if k == 'ptr': return cstr_arg(tr, a)
    if k == 'int': return 'seq![%s]' % tr.ev(a)
    return tr.ev(a)
def length(tr, code):
    tr.u.assumptions.add(MAXLEN)
    code = par(tr, code)
    tr.assume('%s.len() <= 0x7fff_ffff' % code)
    return '(%s.len() as int)' % code
def seqlv(tr, basee, arrow):
    lv = tr.objlv(basee, arrow)
    u = tr.u
    # a record derived from a container
    t = basee['t'].to if arrow else basee['t']
    t = u.strip(t)
    if lv[0] == 'obj': lv = tr.hfield(lv[1], tr.contcls(t), 'items', basee['l'])
    return lv
def outval(tr, a, line):
    """text inserted by operator<<"""
    u = tr.u; t = u.strip(a['t']); k = u.kind(t)
    if k == 'seq' and t.k != 'arr': return tr.ev(a)
    if k == 'seq' or k == 'ptr': return cstr_arg(tr, a)
    if k == 'bool': return 'int_dec(b2i(%s))' % tr.ev(a)
    if k == 'dbl': return 'dbl_text(%s)' % tr.ev(a)
    if k == 'int':
        b = t.d.get('bits')
        if b == 8: return 'seq![%s]' % tr.ev(a)
        if b: return 'int_dec(%s)' % tr.ev(a)
    raise Unsupported('operator<< of ' + t.s)

def range_items(tr, r):
    """(lvalue or None, sequence code, element type) of a range-for range"""
    u = tr.u
    t = r['t']; k = u.kind(t)
    x = r
    while x['k'] == 'Cast' and x['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase', 'NoOp'): x = x['e']
    if k in ('seq', 'contrec', 'struct', 'obj'):
        if r.get('lv'):
            lv = tr.lv(r)
            if lv[0] == 'obj':
                lv = tr.hfield(lv[1], tr.contcls(x['t']), 'items', r['l'])
            elif k == 'struct' and u.cont_base(t.n): lv = ('fld', lv, 'items', u.rs(t))
            return lv, tr.read(lv), u.elem(t)
        return None, tr.ev(r), u.elem(t)
    if k == 'map':
        m = tr.ev(r) if not r.get('lv') else tr.read(tr.lv(r))
        class PT: pass
        from prog import Ty
        p = Ty(); p.d = {'short': 'std::pair'}; p.k = 'rec'; p.n = 'std::pair'; p.s = 'std::pair<>'; p.const = True; p.targs = t.targs
        return None, 'map_seq(%s)' % m, p
    if k == 'set':
        m = tr.ev(r) if not r.get('lv') else tr.read(tr.lv(r))
        return None, 'set_seq(%s)' % m, t.targs[0]
    raise Unsupported('range for over ' + t.s)

def method(fn):
    n = fn['n']
    m = re.search(r'::(operator\W.*|operator [^:]*|\(\w+\)|~?\w+)(<.*>)?$', n)
    return m.group(1) if m else n

def call(tr, e, fn, basee, arrow, args):
    u = tr.u; line = e['l']; k = e['k']
    name = fn['n']
    op = e.get('op') if k == 'OCall' else None
    cls = fn.get('cls')
    if cls is not None and not fn.get('static'):
        return member(tr, e, fn, basee, arrow, args, op)
    base = re.sub(r'<.*', '', name) if not op else None
    # free operators
    if op in ('==', '!=', '<', '>', '<=', '>='):
        ka, kb = u.kind(args[0]['t']), u.kind(args[1]['t'])
        if 'iter' in (ka, kb):
            a, b = tr.evseq(args)
            r = '(%s.i %s %s.i)' % (par(tr, a), op, par(tr, b))
            return ('v', r)
        if ka in ('seq', 'ptr', 'pair') or kb == 'seq':
            a = strval(tr, args[0]) if ka != 'pair' else tr.ev(args[0]); b = strval(tr, args[1]) if kb != 'pair' else tr.ev(args[1])
            if op == '==': return ('v', '(%s =~= %s)' % (a, b) if ka != 'pair' else '(%s == %s)' % (a, b))
            if op == '!=': return ('v', '!(%s =~= %s)' % (a, b))
            if op == '<': return ('v', 'str_lt(%s, %s)' % (a, b))
            if op == '>': return ('v', 'str_lt(%s, %s)' % (b, a))
            if op == '<=': return ('v', '!str_lt(%s, %s)' % (b, a))
            if op == '>=': return ('v', '!str_lt(%s, %s)' % (a, b))
    if op == '+':
        a = strval(tr, args[0])
        if has_effect(args[1]): a = tr.tmp(a, 'Seq<int>')
        b = strval(tr, args[1])
        return ('v', '(%s + %s)' % (a, b))
    if op == '<<' and u.kind(args[0]['t']) == 'ostream':
        lv = tr.cap_lv(tr.lv(args[0]))
        v = outval(tr, args[1], line)
        tr.write(lv, '%s + %s' % (par(tr, tr.read(lv)), v))
        return ('lv', lv)
    if op == '|' and 'regex' in name or op == '|=' and 'regex' in name:
        if op == '|':
            a, b = tr.evseq(args); return ('v', 'bor(%s, %s)' % (a, b))
        lv = tr.cap_lv(tr.lv(args[0])); b = tr.ev(args[1])
        tr.write(lv, 'bor(%s, %s)' % (tr.read(lv), b)); return ('lv', lv)
    short = base.split('::')[-1] if base else None
    if base in ('std::min', 'std::max'):
        a, b = tr.evseq(args)
        if u.kind(args[0]['t']) == 'dbl': return ('v', '(if d_lt(%s, %s) { %s } else { %s })' % ((b, a, b, a) if short == 'min' else (a, b, b, a)))
        return ('v', 'i%s(%s, %s)' % (short, a, b))
    if base == 'memcpy': return memcpy(tr, e, args, line)
    if base in ('tolower', 'std::tolower'): return ('v', 'tolow(%s)' % tr.ev(args[0]))
    if base in ('toupper', 'std::toupper'): return ('v', 'toup(%s)' % tr.ev(args[0]))
    if base == 'std::to_string' and u.kind(args[0]['t']) == 'dbl': return ('v', 'dbl_fmt(%s, 6, 102)' % tr.ev(args[0]))
    if base == 'std::to_string': return ('v', 'int_dec(%s)' % tr.ev(args[0]))
    if base == 'strnlen':
        p = tr.tmp(tr.ev(args[0]), 'P<int>'); n = tr.ev(args[1])
        tr.ob('pointer', '!%s.null && 0 <= %s.o && (has_nul_in(%s.s, %s.o, %s) || %s.o + %s <= %s.s.len())' % (p, p, p, p, n, p, n, p), line, 'strnlen stays inside the array')
        return ('v', 'strn_len(%s.s, %s.o, %s)' % (p, p, n))
    if base in ('std::stoi', 'std::stol'): return stoi(tr, e, args, line, 32 if short == 'stoi' else 64)
    if base == 'strtod' or base == 'std::strtod':
        s = cstr_arg(tr, args[0])
        if not tr.is_null(args[1]):
            x = args[1]
            while x['k'] == 'Cast': x = x['e']
            y = args[0]
            while y['k'] == 'Cast' and y['ck'] in ('NoOp',): y = y['e']
            if not (x['k'] == 'Un' and x['op'] == '&'): raise Unsupported('strtod with an end pointer')
            s = tr.tmp(s, 'Seq<int>'); tr.emit('ax_dbl_len(%s);' % s)
            tr.write(tr.lv(x['e']), 'p_add(c_str(%s), dbl_len(%s))' % (s, s))
        return ('v', 'str_to_dbl(%s)' % s)
    if base == 'std::isinf': return ('v', 'd_isinf(%s)' % tr.ev(args[0]))
    if base == 'mbstowcs':
        if not tr.is_null(args[0]): raise Unsupported('mbstowcs into a buffer')
        s = cstr_arg(tr, args[1])
        return ('v', 'mb_len(%s)' % s)
    if base == 'snprintf': return snprintf(tr, e, args, line)
    if base == 'strdup':
        s = cstr_arg(tr, args[0]); return ('v', 'c_str(%s)' % s)
    if base == 'free': tr.ev(args[0]); return ('v', '()')
    if base == 'std::move': return ('v', tr.ev(args[0])) if not args[0].get('lv') else ('lv', tr.lv(args[0]))
    if base == 'std::advance':
        lv = tr.cap_lv(tr.lv(args[0])); n = tr.ev(args[1]); it = tr.read(lv)
        tr.ob('bounds', '0 <= %s.i + %s <= %s.c.len()' % (par(tr, it), n, par(tr, it)), line, 'advance stays inside the container')
        tr.write(lv, '(%s { i: %s.i + %s, ..%s })' % ('It', par(tr, it), n, par(tr, it)))
        return ('v', '()')
    if base == 'std::search':
        a0, a1, b0, b1 = tr.evseq(args[:4])
        f = 'sub_find'
        if len(args) > 4: return ('v', 'it_search_by(%s, %s, %s, %s, %s)' % (predicate(tr, args[4], 2, line), a0, a1, b0, b1))
        return ('v', 'it_search(%s, %s, %s, %s)' % (a0, a1, b0, b1))
    if base == 'std::find':
        a0, a1, x = tr.evseq(args[:3])
        return ('v', 'it_find(%s, %s, %s)' % (a0, a1, x))
    if base == 'std::transform': return transform(tr, e, args, line)
    if base == 'std::regex_search':
        s = tr.ev(args[0]) if u.kind(args[0]['t']) == 'seq' else cstr_arg(tr, args[0])
        r = tr.ev(args[1])
        return ('v', 're_search(%s, %s)' % (r, s))
    if base == 'access':
        s = cstr_arg(tr, args[0]); m = tr.ev(args[1])
        t = tr.fresh('acc'); tr.emit('let %s: int = nd();' % t); tr.assume('in_i32(%s)' % t)
        if 'g_fs' in u.globs: tr.roots_used.add('g_fs'); tr.assume('%s != 0 ==> !g_fs.dom().contains(%s)' % (t, s))
        else: tr.assume('%s != 0 ==> !fs_has(%s)' % (t, s))
        tr.u.assumptions.add('access(path, F_OK) fails only for a path that does not exist, and no other process creates the file before it is opened')
        return ('v', t)
    if 'g_fs' in u.globs and base in ('unlink', 'fork', 'execvp', '_exit', 'exit', 'waitpid'):
        for a in args[:1] if base in ('_exit', 'exit', 'waitpid') else args[:0]: tr.ev(a)
        if base in ('_exit', 'exit'):
            u.assumptions.add('%s does not return' % base); tr.assume('false'); return ('v', '()')
        t = tr.fresh('sys'); tr.emit('let %s: int = nd();' % t); tr.assume('in_i32(%s)' % t)
        if base == 'unlink':
            s = cstr_arg(tr, args[0]); tr.roots_used.add('g_fs'); tr.write(('var', 'g_fs'), 'g_fs.remove(%s)' % s)
            u.assumptions.add('unlink removes the file it is given')
        if base == 'waitpid':
            x = args[1]
            while x['k'] == 'Cast': x = x['e']
            if x['k'] == 'Un' and x['op'] == '&':
                v = tr.fresh('st'); tr.emit('let %s: int = nd();' % v); tr.assume('in_i32(%s)' % v); tr.write(tr.lv(x['e']), v)
        if base == 'execvp':
            f = tr.tmp(tr.ev(args[0]), 'P<int>'); av = tr.tmp(tr.ev(args[1]), 'P<P<int>>')
            tr.names['$file'] = f; tr.names['$argv'] = av; tr.hint('exec')
            u.assumptions.add('execvp returns only when it fails')
        if base == 'fork': u.assumptions.add('the child of fork goes on with the state of its parent')
        return ('v', t)
    r = extra_call(tr, e, fn, args, base, line)
    if r is not None: return r
    return None
def extra_call(tr, e, fn, args, base, line):
    u = tr.u; names = (u.syms.get('extern:curses') or '').split()
    if base not in names: return None
    if base == 'wgetch' and 'g_keys' in u.globs:
        u.assumptions.add('the keys typed are a finite sequence, long enough for the program to get every key it asks for')
        tr.roots_used.add('g_keys'); t = tr.fresh('key')
        tr.assume('g_keys.len() > 0'); tr.emit('let %s: int = g_keys[0];' % t); tr.assume_ok(t, fn['ret'])
        tr.write(('var', 'g_keys'), 'g_keys.drop_first()')
        return ('v', t)
    for a in args:
        x = a
        while x['k'] == 'Cast' and x['ck'] in ('NoOp', 'ArrayToPointerDecay', 'LValueToRValue'): x = x['e']
        if x['k'] == 'Str' or u.kind(a['t']) in ('ptr', 'seq'): continue
        tr.ev(a)
    u.assumptions.add('curses calls only draw: they change nothing the program reads back')
    rs = u.rs(fn['ret'])
    if rs == '()': return ('v', '()')
    t = tr.fresh('cur'); tr.emit('let %s: %s = nd();' % (t, rs)); tr.assume_ok(t, fn['ret'])
    return ('v', t)

def memcpy(tr, e, args, line):
    dlv, doff = tr.ptr_path(args[0])
    dlv = tr.cap_lv(dlv); doff = tr.tmp(doff, 'int')
    s = tr.tmp(tr.ev(args[1]), tr.u.rs(ptr_src(args[1])))
    n = tr.tmp(tr.ev(args[2]), 'int')
    esz = elem_size(ptr_src(args[1]))
    if esz != 1: raise Unsupported('memcpy of larger elements')
    d = tr.read(dlv)
    tr.ob('bounds', '0 <= %s && 0 <= %s && %s + %s <= %s.len()' % (n, doff, doff, n, par(tr, d)), line, 'memcpy writes inside the destination')
    tr.ob('bounds', '%s == 0 || (!%s.null && 0 <= %s.o && %s.o + %s <= %s.s.len())' % (n, s, s, s, n, s), line, 'memcpy reads inside the source')
    tr.write(dlv, 'copy_into(%s, %s, %s.s, %s.o, %s)' % (d, doff, s, s, n))
    return ('v', '()')
def ptr_src(a):
    while a['k'] == 'Cast' and a['ck'] in ('BitCast', 'NoOp') and a['e']['t'].k in ('ptr',): a = a['e']
    return a['t']
def elem_size(t):
    to = t.to
    b = to.d.get('bits') if to.d else None
    return (b or 64) // 8
def stoi(tr, e, args, line, bits):
    u = tr.u
    if len(args) > 1 and not tr.is_null(args[1]): raise Unsupported('stoi with a position')
    b = '10int'
    s = tr.tmp(tr.ev(args[0]), 'Seq<int>')
    if len(args) > 2: b = tr.ev(args[2])
    u.need_exc()
    # std::invalid_argument when no digits, std::out_of_range when too large
    def bad(cls):
        def f():
            x = tr.fresh('ex'); tr.emit('let %s: Exc = nd();' % x); tr.assume('%s.tag == %d' % (x, u.exc_tag(cls)))
            tr.do_throw(x)
        return f
    m = tr.branch('!sto_valid(%s, %s)' % (s, b), bad('std::invalid_argument'))
    if m: tr.guard()
    m = tr.branch('!in_i%d(sto_val(%s, %s))' % (bits, s, b), bad('std::out_of_range'))
    if m: tr.guard()
    return ('v', 'sto_val(%s, %s)' % (s, b))
def snprintf(tr, e, args, line):
    """only the form snprintf(buf, sizeof buf, "%.<n>g" or "%.*g", ..., double)"""
    fmt = literal(args[2])
    if fmt is None: raise Unsupported('snprintf format')
    f = ''.join(chr(c) for c in fmt)
    m = re.match(r'^%\.(\*|\d+)([gef])$', f)
    if not m: raise Unsupported('snprintf format ' + f)
    dlv, doff = tr.ptr_path(args[0]); dlv = tr.cap_lv(dlv)
    n = tr.ev(args[1])
    rest = args[3:]
    prec = tr.ev(rest.pop(0)) if m.group(1) == '*' else m.group(1)
    v = tr.ev(rest[0])
    v = tr.tmp(v, 'Dbl'); txt = tr.tmp('dbl_fmt(%s, %s, %dint)' % (v, prec, ord(m.group(2))), 'Seq<int>'); tr.emit('ax_dbl_fmt(%s, %s, %dint);' % (v, prec, ord(m.group(2))))
    d = tr.tmp(tr.read(dlv), 'Seq<int>')
    tr.ob('bounds', '0 <= %s && 0 <= %s && %s + %s <= %s.len()' % (n, doff, doff, n, par(tr, d)), line, 'snprintf writes inside the buffer')
    tr.emit('lem_fmt(%s, %s, %s, %s);' % (d, doff, n, txt))
    tr.write(dlv, 'fmt_into(%s, %s, %s, %s)' % (d, doff, n, txt))
    tr.assume('%s.len() <= 0x7fff_ffff' % txt)
    return ('v', '(%s.len() as int)' % txt)
def predicate(tr, e, arity, line):
    """the function object passed to an algorithm: the spec function named by the contract of its operator()"""
    u = tr.u; n = u.short(e['t']); 
    for m, c in u.contract_of.items():
        f = u.p.funcs[m]
        if f['name'] == n + '::operator()' and len(f['params']) == arity and 'pred' in c.opts:
            tr.callees.add(m); v = tr.ev(e)
            # the object is copied: its destructor must not release what it shares with the original
            r = u.p.records.get(n)
            for fl in (r or {}).get('fields', []):
                if fl['t'].k == 'ptr': tr.ob('pointer', '%s.%s == 0' % (par(tr, v), fl['n']), line, 'the copied function object owns nothing')
            return '%s(%s)' % (c.opts['pred'], v)
    raise Unsupported('predicate ' + n)
def transform(tr, e, args, line):
    # std::transform(s.begin(), s.end(), s.begin(), ::tolower)
    f = args[3]
    while f['k'] in ('Cast',) or (f['k'] == 'Un' and f['op'] == '&'): f = f['e']
    fn = f.get('fn')
    if fn is None or fn['n'].split('::')[-1] not in ('tolower', 'toupper'): raise Unsupported('std::transform')
    def base(a):
        while a['k'] in ('Cast',): a = a['e']
        if a['k'] == 'Construct' and a['args']: return base(a['args'][0])
        if a['k'] == 'MCall': return a['b'], a['arrow'], a['fn']['n'].split('::')[-1]
        raise Unsupported('std::transform range')
    b0, a0, m0 = base(args[0]); b1, a1, m1 = base(args[1]); b2, a2, m2 = base(args[2])
    if (m0, m1, m2) != ('begin', 'end', 'begin'): raise Unsupported('std::transform range')
    s = tr.read(seqlv(tr, b0, a0)); s1 = tr.read(seqlv(tr, b1, a1)); d = tr.cap_lv(seqlv(tr, b2, a2))
    if s != s1 or tr.read(d) != s: raise Unsupported('std::transform range')
    tr.write(d, ('lowers(%s)' if fn['n'].endswith('tolower') else 'uppers(%s)') % s)
    return ('v', '()')

def member(tr, e, fn, basee, arrow, args, op):
    u = tr.u; line = e['l']; cls = fn['cls']; m = op or method(fn)
    t = basee['t'].to if arrow else basee['t']
    t = u.strip(t)
    kc = u.kind(cls)
    if kc == 'seq' and u.short(cls) in SEQ_CLASSES: return seq_member(tr, e, fn, basee, arrow, args, m, op)
    if kc == 'iter': return iter_member(tr, e, fn, basee, arrow, args, m, op)
    if kc == 'map': return map_member(tr, e, fn, basee, arrow, args, m, op)
    if kc == 'set': return set_member(tr, e, fn, basee, arrow, args, m, op)
    sh = u.short(cls)
    if m == '=' or op == '=':
        if kc in ('pair', 'exc', 'ostream'):
            v = tr.ev(args[0]); lv = tr.lv(basee) if not arrow else tr.objlv(basee, arrow); tr.write(lv, v); return ('lv', lv)
    if kc == 'exc':
        if m == 'what': 
            lv = tr.objlv(basee, arrow)
            w = tr.tmp('%s.what_' % par(tr, tr.read(lv)), 'Seq<int>'); tr.emit('lem_cnul(%s);' % w)
            return ('v', 'c_str(%s)' % w)
    if kc == 'istream' and arrow and m == 'is_open':
        lv = tr.objlv(basee, arrow)
        if lv[0] == 'key': return ('v', 'fs_opens(%s)' % tr.read(lv))
    if kc == 'istream': return istream_member(tr, e, fn, basee, arrow, args, m)
    if kc == 'ostream': return ostream_member(tr, e, fn, basee, arrow, args, m, op)
    if kc == 'ofs':
        lv = tr.cap_lv(tr.objlv(basee, arrow))
        if m == 'open':
            t = tr.fresh('op'); tr.emit('let %s: bool = nd();' % t)
            s = strval(tr, args[0])
            tr.write(lv, 'Ofs { open: %s, path: %s }' % (t, s))
            if 'g_fs' in u.globs:   # the file is there, and empty
                tr.roots_used.add('g_fs'); tr.write(('var', 'g_fs'), '(if %s { g_fs.insert(upto_nul(%s), Seq::<int>::empty()) } else { g_fs })' % (t, s))
            return ('v', '()')
        if m == 'is_open': return ('v', '%s.open' % par(tr, tr.read(lv)))
    if sh == 'std::fpos': # streamoff conversion
        return ('v', tr.ev(basee))
    if sh in ('std::basic_ios',):
        bt = basee
        while bt['k'] == 'Cast' and bt['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase', 'NoOp'): bt = bt['e']
        kk = u.kind(bt['t'])
        if kk == 'istream': return istream_member(tr, e, fn, bt, arrow, args, m)
        if kk == 'ostream': return ostream_member(tr, e, fn, bt, arrow, args, m, op)
    if sh == 'std::type_info' and m == 'name':
        t = tr.fresh('tn'); tr.emit('let %s: Seq<int> = nd();' % t); return ('v', 'c_str(%s)' % t)
    if sh == 'std::wstring_convert' and m == 'to_bytes':
        a = tr.ev(args[0])
        return wconv(tr, a, args[0], line)
    return None
def wconv(tr, a, arg, line):
    u = tr.u; u.need_exc()
    one = None
    if u.kind(arg['t']) != 'seq': one = tr.tmp(a, 'int'); a = 'seq![%s]' % one
    # codecvt_utf8 refuses surrogates and values above 0x10ffff
    def bad():
        x = tr.fresh('ex'); tr.emit('let %s: Exc = nd();' % x); tr.assume('%s.tag == %d' % (x, u.exc_tag('std::range_error')))
        tr.do_throw(x)
    a = tr.tmp(a, 'Seq<int>')
    if tr.branch('!wc_valid(%s)' % a, bad): tr.guard()
    return ('v', 'utf8(%s)' % one if one else 'utf8_bytes(%s)' % a)
def itpos(tr, lv):
    return lv
def seq_member(tr, e, fn, basee, arrow, args, m, op):
    u = tr.u; line = e['l']
    isstr = u.short(fn['cls']).endswith('basic_string')
    if m == '(ctor)': return None
    if m == '=':
        if isstr: v = strval(tr, args[0])
        else: v = tr.ev(args[0])
        lv = seqlv(tr, basee, arrow); tr.write(lv, v); return ('lv', lv)
    if m in ('size', 'length'):
        return ('v', length(tr, tr.read(seqlv(tr, basee, arrow))))
    if m == 'empty': return ('v', '(%s.len() == 0)' % par(tr, tr.read(seqlv(tr, basee, arrow))))
    if m in ('begin', 'cbegin', 'end', 'cend'):
        c = tr.read(seqlv(tr, basee, arrow))
        return ('v', 'It { c: %s, i: %s }' % (c, '0' if m.endswith('begin') else '%s.len() as int' % par(tr, c)))
    if m in ('[]', 'at'):
        lv = seqlv(tr, basee, arrow)
        if has_effect(args[0]): lv = tr.cap_lv(lv)
        i = tr.ev(args[0])
        if m == 'at':
            if not re.match(r'^[\w.]+$', i): i = tr.tmp(i, 'int')
            def bad():
                u.need_exc(); x = tr.fresh('ex'); tr.emit('let %s: Exc = nd();' % x); tr.assume('%s.tag == %d' % (x, u.exc_tag('std::out_of_range'))); tr.do_throw(x)
            if tr.branch('!(0 <= %s < %s.len())' % (i, par(tr, tr.read(lv))), bad): tr.guard()
            return ('lv', ('idx', lv, i))
        c = par(tr, tr.read(lv))
        if isstr and not (fn.get('cm') is None and False):
            # s[s.size()] is the terminator
            if not written_to(e):
                tr.ob('bounds', '0 <= %s <= %s.len()' % (i, c), line, 'index inside the string')
                v = 'str_at(%s, %s)' % (c, i)
                tr.assume_ok(v, fn['ret'])
                return ('v', v)
        tr.ob('bounds', '0 <= %s < %s.len()' % (i, c), line, 'index inside the container')
        return ('lv', ('idx', lv, i))
    if u.short(fn['cls']) == 'std::stack': m = {'push': 'push_back', 'emplace': 'emplace_back', 'top': 'back', 'pop': 'pop_back'}.get(m, m)
    if m in ('front', 'back'):
        lv = seqlv(tr, basee, arrow); c = par(tr, tr.read(lv))
        tr.ob('bounds', '%s.len() > 0' % c, line, '%s of a non-empty container' % m)
        if m == 'front': return ('lv', ('idx', lv, '0int'))
        return ('lv', ('idx', lv, '(%s.len() - 1)' % c))
    if m in ('push_back', 'emplace_back'):
        v = tr.ev(args[0]); lv = seqlv(tr, basee, arrow)
        tr.write(lv, '%s.push(%s)' % (par(tr, tr.read(lv)), v)); return ('v', '()')
    if m in ('push_front',):
        v = tr.ev(args[0]); lv = seqlv(tr, basee, arrow)
        tr.write(lv, 'seq![%s] + %s' % (v, par(tr, tr.read(lv)))); return ('v', '()')
    if m == 'pop_back':
        lv = seqlv(tr, basee, arrow); c = par(tr, tr.read(lv))
        tr.ob('bounds', '%s.len() > 0' % c, line, 'pop_back of a non-empty container')
        tr.write(lv, '%s.drop_last()' % c); return ('v', '()')
    if m == 'pop_front':
        lv = seqlv(tr, basee, arrow); c = par(tr, tr.read(lv))
        tr.ob('bounds', '%s.len() > 0' % c, line, 'pop_front of a non-empty container')
        tr.write(lv, '%s.drop_first()' % c); return ('v', '()')
    if m == 'clear':
        lv = seqlv(tr, basee, arrow); tr.write(lv, 'Seq::empty()'); return ('v', '()')
    if m == 'reserve':
        tr.ev(args[0]); return ('v', '()')
    if m in ('+=', 'append') and isstr:
        if m == 'append' and len(args) == 2 and u.kind(args[0]['t']) == 'int':
            n = tr.ev(args[0]); c = tr.ev(args[1]); v = 'rep_char(%s, %s)' % (n, c)
        elif m == 'append' and len(args) == 2 and u.kind(args[0]['t']) == 'ptr':
            p = tr.tmp(tr.ev(args[0]), 'P<int>'); n = tr.ev(args[1])
            tr.ob('pointer', '!%s.null && 0 <= %s.o && 0 <= %s && %s.o + %s <= %s.s.len()' % (p, p, n, p, n, p), line, 'append reads inside the array')
            v = '%s.s.subrange(%s.o, %s.o + %s)' % (p, p, p, n)
        elif len(args) == 1: v = strval(tr, args[0])
        else: return None
        lv = seqlv(tr, basee, arrow); lv = tr.cap_lv(lv)
        tr.write(lv, ('%s + %s' % (par(tr, tr.read(lv)), v)) if not v.startswith('seq![') or ',' in v else '%s.push(%s)' % (par(tr, tr.read(lv)), v[5:-1])); return ('lv', lv)
    if m in ('c_str', 'data'):
        lv = seqlv(tr, basee, arrow); w = tr.read(lv)
        if 'g_fs' in u.globs: tr.emit('lem_cnul(%s);' % w)
        return ('v', 'c_str(%s)' % w)
    if m == 'substr':
        s = tr.tmp(tr.read(seqlv(tr, basee, arrow)), 'Seq<int>')
        a = tr.tmp(tr.ev(args[0]), 'int') if args else '0int'
        n = tr.ev(args[1]) if len(args) > 1 else '%s.len() as int' % s
        def bad():
            u.need_exc(); x = tr.fresh('ex'); tr.emit('let %s: Exc = nd();' % x); tr.assume('%s.tag == %d' % (x, u.exc_tag('std::out_of_range'))); tr.do_throw(x)
        if tr.branch('!(0 <= %s <= %s.len())' % (a, s), bad): tr.guard()
        if n in ('%s.len() as int' % s, '18446744073709551615int'): return ('v', '%s.subrange(%s, %s.len() as int)' % (s, a, s))
        return ('v', 'substr(%s, %s, %s)' % (s, a, n))
    if m == 'find' and isstr:
        s = tr.read(seqlv(tr, basee, arrow))
        v = strval(tr, args[0]); p = tr.ev(args[1]) if len(args) > 1 else '0int'
        return ('v', 'str_find(%s, %s, %s)' % (s, v, p))
    if m == 'insert' and not isstr:
        it = tr.ev(args[0]); it = tr.tmp(it, u.rs(args[0]['t'])); v = tr.ev(args[1])
        lv = tr.cap_lv(seqlv(tr, basee, arrow)); c = par(tr, tr.read(lv))
        tr.ob('bounds', '0 <= %s.i <= %s.len()' % (it, c), line, 'insertion point inside the container')
        tr.write(lv, '%s.insert(%s.i, %s)' % (c, it, v))
        return ('v', 'It { c: %s, i: %s.i }' % (tr.read(lv), it))
    if m == 'erase' and not isstr:
        if len(args) != 1: return None
        it = tr.ev(args[0]); it = tr.tmp(it, u.rs(args[0]['t']))
        lv = tr.cap_lv(seqlv(tr, basee, arrow)); c = par(tr, tr.read(lv))
        tr.ob('bounds', '0 <= %s.i < %s.len()' % (it, c), line, 'erased element exists')
        tr.write(lv, '%s.remove(%s.i)' % (c, it))
        return ('v', 'It { c: %s, i: %s.i }' % (tr.read(lv), it))
    if m == 'assign' or m == 'resize': return None
    return None
def written_to(e):
    return e.get('_w', False)
def iter_member(tr, e, fn, basee, arrow, args, m, op):
    u = tr.u; line = e['l']
    if m == '*': return ('lv', tr.iter_deref(basee, line))
    if m == '->': return ('lv', tr.iter_deref(basee, line))
    if m in ('++', '--'):
        lv = tr.cap_lv(tr.lv(basee)); it = tr.read(lv)
        post = len(args) > 0
        d = '+' if m == '++' else '-'
        tr.ob('bounds', ('0 <= %s.i < %s.c.len()' if m == '++' else '0 < %s.i <= %s.c.len()') % (par(tr, it), par(tr, it)), line, 'iterator stays inside the container')
        old = tr.tmp(it, u.rs(basee['t'])) if post else None
        tr.write(lv, 'It { i: %s.i %s 1, ..%s }' % (par(tr, it), d, par(tr, it)))
        return ('v', old) if post else ('lv', lv)
    if m == '=':
        v = tr.ev(args[0]); lv = tr.lv(basee); tr.write(lv, v); return ('lv', lv)
    if m in ('==', '!='):
        a, b = tr.evseq([basee, args[0]]); return ('v', '(%s.i %s %s.i)' % (par(tr, a), m, par(tr, b)))
    if m in ('+', '-'):
        a, b = tr.evseq([basee, args[0]])
        return ('v', 'It { i: %s.i %s %s, ..%s }' % (par(tr, a), m, b, par(tr, a)))
    return None
def map_member(tr, e, fn, basee, arrow, args, m, op):
    u = tr.u; line = e['l']
    lvf = lambda: tr.cap_lv(tr.lv(basee) if op else tr.objlv(basee, arrow))
    if m == '[]':
        lv = lvf(); key = tr.ev(args[0])
        vt = fn['cls'].targs[1]; kt = u.rs(fn['cls'].targs[0])
        key = tr.hcap(key, kt)
        mm = par(tr, tr.read(lv))
        tr.write(lv, 'if %s.dom().contains(%s) { %s } else { %s.insert(%s, %s) }' % (mm, key, mm, mm, key, tr.default(vt)))
        return ('lv', ('key', lv, key, kt))
    if m == 'at':
        lv = lvf(); key = tr.ev(args[0]); kt = u.rs(fn['cls'].targs[0]); key = tr.hcap(key, kt)
        mm = par(tr, tr.read(lv))
        def bad():
            u.need_exc(); x = tr.fresh('ex'); tr.emit('let %s: Exc = nd();' % x); tr.assume('%s.tag == %d' % (x, u.exc_tag('std::out_of_range'))); tr.do_throw(x)
        if tr.branch('!%s.dom().contains(%s)' % (mm, key), bad): tr.guard()
        return ('lv', ('key', lv, key, kt))
    if m == '=':
        v = tr.ev(args[0]); lv = tr.lv(basee); tr.write(lv, v); return ('lv', lv)
    if m == 'clear': lv = lvf(); tr.write(lv, 'Map::empty()'); return ('v', '()')
    if m == 'size': 
        return ('v', '(%s.dom().len() as int)' % par(tr, tr.read(lvf())))
    return None
def set_member(tr, e, fn, basee, arrow, args, m, op):
    u = tr.u; line = e['l']
    lvf = lambda: tr.cap_lv(tr.lv(basee) if op else tr.objlv(basee, arrow))
    if m == 'insert':
        v = tr.ev(args[0]); lv = lvf(); tr.write(lv, '%s.insert(%s)' % (par(tr, tr.read(lv)), v)); return ('v', '()')
    if m == 'erase':
        v = tr.ev(args[0]); lv = lvf()
        if u.kind(args[0]['t']) == 'iter': tr.write(lv, '%s.remove(%s.c[%s.i])' % (par(tr, tr.read(lv)), par(tr, v), par(tr, v)))
        else:
            v = tr.tmp(v, u.rs(args[0]['t'])); n = tr.tmp('if %s.contains(%s) { 1int } else { 0int }' % (par(tr, tr.read(lv)), v), 'int')
            tr.write(lv, '%s.remove(%s)' % (par(tr, tr.read(lv)), v)); return ('v', n)
        return ('v', '()')
    if m == 'clear': lv = lvf(); tr.write(lv, 'Set::empty()'); return ('v', '()')
    if m == 'find':
        v = tr.tmp(tr.ev(args[0]), u.rs(args[0]['t'])); lv = lvf(); tr.emit('ax_set_find(%s, %s);' % (tr.read(lv), v)); return ('v', 'set_find(%s, %s)' % (tr.read(lv), v))
    if m in ('end', 'cend'): 
        lv = lvf(); return ('v', 'set_end(%s)' % tr.read(lv))
    if m == 'size':
        lv = lvf(); return ('v', '(%s.len() as int)' % par(tr, tr.read(lv)))
    if m == 'empty':
        lv = lvf(); return ('v', '(%s.len() == 0)' % par(tr, tr.read(lv)))
    if m == '=':
        v = tr.ev(args[0]); lv = tr.lv(basee); tr.write(lv, v); return ('lv', lv)
    return None
def istream_member(tr, e, fn, basee, arrow, args, m):
    u = tr.u; line = e['l']
    lv = tr.cap_lv(tr.objlv(basee, arrow)); s = par(tr, tr.read(lv))
    if lv[0] in ('val',): raise Unsupported('stream expression')
    if m == 'good': return ('v', 'st_good(%s)' % s)
    if m == 'eof': return ('v', '%s.eof' % s)
    if m == 'fail': return ('v', '%s.fail' % s)
    if m == 'get' and not args:
        c = tr.fresh('ch'); tr.emit('let %s: int = st_getc(%s);' % (c, s)); tr.assume('in_i32(%s)' % c)
        tr.write(lv, 'st_get(%s)' % s); return ('v', c)
    if m == 'unget': tr.write(lv, 'st_unget(%s)' % s); return ('lv', lv)
    if m == 'read':
        dlv, doff = tr.ptr_path(args[0]); dlv = tr.cap_lv(dlv); doff = tr.tmp(doff, 'int'); n = tr.tmp(tr.ev(args[1]), 'int')
        d = tr.read(dlv)
        tr.ob('bounds', '0 <= %s && %s + %s <= %s.len()' % (doff, doff, n, par(tr, d)), line, 'read stays inside the buffer')
        tr.write(dlv, 'copy_into(%s, %s, %s.inp, %s.pos, st_readn(%s, %s))' % (d, doff, s, s, s, n))
        tr.write(lv, 'st_read(%s, %s)' % (s, n)); return ('lv', lv)
    if m == 'gcount': return ('v', '%s.gc' % s)
    if m == 'tellg':
        t = tr.fresh('pos'); tr.emit('let %s: int = nd();' % t); tr.assume('in_i64(%s)' % t)
        tr.write(lv, 'st_tell(%s)' % s); return ('v', t)
    if m == 'clear' and all(tr.is_default(a) for a in args):
        tr.write(lv, 'Stream { eof: false, fail: false, ..%s }' % s); return ('v', '()')
    return None
def ostream_member(tr, e, fn, basee, arrow, args, m, op):
    u = tr.u; line = e['l']
    if op == '<<':
        a = args[0]
        x = a
        while x['k'] == 'Cast': x = x['e']
        lv = tr.cap_lv(tr.lv(basee))
        if x['k'] == 'Ref' and 'fn' in x and x['fn']['n'].startswith('std::endl'):
            tr.write(lv, '%s.push(10int)' % par(tr, tr.read(lv))); return ('lv', lv)
        v = outval(tr, a, line)
        tr.write(lv, '%s + %s' % (par(tr, tr.read(lv)), v)); return ('lv', lv)
    lv = tr.cap_lv(tr.objlv(basee, arrow)); s = par(tr, tr.read(lv))
    if m == 'str':
        if not args: return ('v', tr.read(lv))
        v = strval(tr, args[0]); tr.write(lv, v); return ('v', '()')
    if m == 'write':
        p = tr.tmp(tr.ev(args[0]), 'P<int>'); n = tr.ev(args[1])
        tr.ob('pointer', '0 <= %s && (%s == 0 || (!%s.null && 0 <= %s.o && %s.o + %s <= %s.s.len()))' % (n, n, p, p, p, n, p), line, 'write reads inside the array')
        tr.write(lv, '%s + %s.s.subrange(%s.o, %s.o + %s)' % (s, p, p, p, n)); return ('lv', lv)
    if m == 'put':
        v = tr.ev(args[0]); tr.write(lv, '%s.push(%s)' % (s, v)); return ('lv', lv)
    if m == 'clear': return ('v', '()')
    return None

def construct(tr, e, t, k, args):
    u = tr.u; line = e['l']; t = u.strip(t); sh = u.short(t)
    if k == 'seq':
        isstr = sh.endswith('basic_string')
        # drop allocator arguments
        args = [a for a in args if not (u.strip(a['t']).k == 'rec' and u.short(u.strip(a['t'])) == 'std::allocator')]
        if not args: return 'Seq::<%s>::empty()' % u.rs(u.elem(t))
        if isstr:
            if len(args) == 1:
                if u.kind(args[0]['t']) == 'ptr': return cstr_arg(tr, args[0])
                return tr.ev(args[0])
            if len(args) == 2:
                ka = u.kind(args[0]['t'])
                if ka == 'int':
                    n, c = tr.evseq(args); return 'rep_char(%s, %s)' % (n, c)
                if ka == 'ptr':
                    p, n = tr.evseq(args); p = tr.tmp(p, 'P<int>')
                    tr.ob('pointer', '0 <= %s && (%s == 0 || (!%s.null && 0 <= %s.o && %s.o + %s <= %s.s.len()))' % (n, n, p, p, p, n, p), line, 'string built from inside the array')
                    return '%s.s.subrange(%s.o, %s.o + %s)' % (p, p, p, n)
                if ka == 'iter':
                    a, b = tr.evseq(args); a = tr.tmp(a, u.rs(args[0]['t'])); b = tr.tmp(b, u.rs(args[1]['t']))
                    tr.ob('bounds', '0 <= %s.i <= %s.i <= %s.c.len()' % (a, b, a), line, 'range inside the container')
                    return '%s.c.subrange(%s.i, %s.i)' % (a, a, b)
        else:
            if len(args) == 1 and u.kind(args[0]['t']) == 'seq': return tr.ev(args[0])
        return None
    if k == 'contrec': return 'Seq::<%s>::empty()' % u.rs(u.elem(t)) if not args else None
    if k == 'pair':
        if len(args) == 2:
            a, b = tr.evseq(args)
            if u.kind(t.targs[0]) == 'seq' and u.kind(args[0]['t']) == 'ptr': a = cstr_arg(tr, args[0])
            if u.kind(t.targs[1]) == 'seq' and u.kind(args[1]['t']) == 'ptr': b = cstr_arg(tr, args[1])
            return 'Pair { first: %s, second: %s }' % (a, b)
        if len(args) == 1:
            a = tr.ev(args[0]); return a
        if not args: return tr.default(t)
    if k == 'iter':
        if len(args) == 1: return tr.ev(args[0])
        if not args: return 'nd()'
    if k == 'map':
        if not args: return 'Map::<%s, %s>::empty()' % (u.rs(t.targs[0]), u.rs(t.targs[1]))
        return None
    if k == 'set':
        if not args: return 'Set::<%s>::empty()' % u.rs(t.targs[0])
        if len(args) >= 1 and u.kind(args[0]['t']) == 'seq':
            return '%s.to_set()' % par(tr, tr.ev(args[0]))
        return None
    if k == 'ofs':
        if not args: return 'Ofs { open: false, path: Seq::empty() }'
        if len(args) == 1 and u.kind(args[0]['t']) == 'ofs': return tr.ev(args[0])
        return None
    if k == 'ostream':
        args = [a for a in args if u.kind(a['t']) in ('seq', 'ptr')]
        if not args: return 'Seq::<int>::empty()'
        return strval(tr, args[0])
    if sh == 'std::wstring_convert':
        cv = str(t.targs[0].s if hasattr(t.targs[0], 's') else t.targs[0])
        if args or cv.replace(' ', '') not in ('std::codecvt_utf8<char32_t,1114111,0>', 'std::codecvt_utf8<char32_t,1114111>', 'std::codecvt_utf8<char32_t>'):
            raise Unsupported('std::wstring_convert of ' + cv)
        return '0int'
    if sh == 'std::fpos': return tr.ev(args[0]) if args else '0int'
    if sh == 'std::allocator': return '0int'
    if sh == 'std::basic_regex':
        return regex(tr, e, args, line)
    return None
def regex(tr, e, args, line):
    u = tr.u; u.need_exc()
    s = strval(tr, args[0]); s = tr.tmp(s, 'Seq<int>')
    f = tr.ev(args[1]) if len(args) > 1 else 're_default()'
    f = tr.tmp(f, 'int')
    def bad():
        x = tr.fresh('ex'); tr.emit('let %s: Exc = nd();' % x); tr.assume('%s.tag == %d' % (x, u.exc_tag('std::regex_error')))
        tr.do_throw(x)
    if tr.branch('!re_valid(%s, %s)' % (s, f), bad): tr.guard()
    tr.assume('re_make(%s, %s) > 0' % (s, f))
    return 're_make(%s, %s)' % (s, f)
def new(tr, e, t):
    u = tr.u; i = e.get('init'); sh = u.short(t)
    if sh in ('std::basic_stringstream', 'std::__cxx11::basic_stringstream', 'std::basic_ifstream'):
        import tr as trm
        g = trm.PTR_STREAMS[sh]
        p = tr.hoist('int', 'p'); tr.emit('%s = nd();' % p); tr.assume('%s > 0' % p)
        if g in u.globs:
            tr.roots_used.add(g); tr.assume('!%s.dom().contains(%s)' % (g, p))
            args = [a for a in (i or {}).get('args', []) if u.kind(a['t']) in ('seq', 'ptr')]
            tr.write(('var', g), '%s.insert(%s, %s)' % (g, p, strval(tr, args[0]) if args else 'Seq::<int>::empty()'))
        return p
    if sh == 'std::basic_regex':
        return construct(tr, i, t, 'int', i['args'])
    g = u.heapvals.get(u.strip(t).n)
    if g is not None:
        v = tr.tmp(tr.ev(i), u.rs(u.strip(t)))
        p = tr.hoist('int', 'p'); tr.emit('%s = nd();' % p); tr.roots_used.add(g)
        tr.assume('%s > 0 && !%s.dom().contains(%s)' % (p, g, p)); tr.write(('var', g), '%s.insert(%s, %s)' % (g, p, v))
        return p
    if u.strip(t).n in u.valuecls and i is not None:
        v = tr.tmp(tr.ev(i), u.rs(u.strip(t)))
        p = tr.hoist('int', 'p'); tr.emit('%s = nd();' % p)
        tr.assume('%s > 0' % p); tr.assume('%s == %s' % (tr.objof(p, u.strip(t)), v))
        u.assumptions.add('an object of class %s created on the heap does not change afterwards' % u.strip(t).n)
        return p
    return None

PARAMS = {'isStrict': 'par_strict', 'sort': 'par_sort', 'isIgnoringUnicode': 'par_ignuni', 'isDiff': 'par_diff', 'isValid': None}
def opaque_call(tr, e, fn, basee, arrow, args):
    """getters of configuration objects the function only reads: uninterpreted functions of the object"""
    u = tr.u; m = fn['n'].split('::')[-1]
    if not fn.get('cm') or args: return None
    if u.contract_of.get(fn['m']) is not None: return None
    ret = fn['ret']; rs = u.rs(ret)
    b = tr.objlv(basee, arrow)
    if b[0] == 'obj': return None
    b = tr.read(b)
    name = 'par_%s' % rname(m)
    decl = 'pub uninterp spec fn %s(p: int) -> %s;' % (name, rs)
    if decl not in u.specfns: u.specfns.append(decl)
    v = '%s(%s)' % (name, b)
    tr.assume_ok(v, ret)
    u.assumptions.add('the configuration getters return the same value throughout a parse')
    return ('v', v)
