"""Builds the Verus crate of one property from the contracts and the program, runs Verus and maps its answers to obligations."""
import os, re, sys, json, glob, subprocess, time, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prog, ct, tr
from prog import VERIF, REPO

def load_program(workdir, extra=('inst.cpp',)):
    srcs = sorted('src/' + os.path.basename(x) for x in glob.glob(REPO + '/src/*.cpp'))
    srcs += [os.path.join(VERIF, 'extractor', x) for x in extra]
    ex = prog.export(srcs, workdir)
    p = prog.Program(); p.load(ex)
    return p

def load_contracts(files):
    cs, uses, syms = [], [], {}
    for f in files:
        c, u, s = ct.parse(os.path.join(VERIF, 'contracts', f))
        cs += c; uses += [x for x in u if x not in uses]; syms.update(s)
    return cs, uses, syms

class Result: pass
def opaque_lits(out):
    """long character sequences become opaque constants (same length of text: one line each, table untouched)"""
    names = {}; tables = set(k for l in out for k in re.findall(r'\(seq!\[(\d+int(?:, \d+int)*)\]\)\[', l))   # looked into: kept transparent
    def f(m):
        k = m.group(1)
        if k.count(',') < 3 or k in tables: return m.group(0)
        return names.setdefault(k, 'lit_%d' % len(names)) + '()'
    out = [re.sub(r'seq!\[(\d+int(?:, \d+int)*)\]', f, l) for l in out]
    out = [re.sub(r'reveal_lit\((lit_\d+)\(\)\)', r'reveal(\1)', l) for l in out]
    out[2] += ' ' + ' '.join('#[verifier::opaque] pub open spec fn %s() -> Seq<int> { seq![%s] }' % (n, k) for k, n in names.items())
    return out

def build(p, files, prop, only=None, smoke=False, valuecls=(), snap=None, exclude=(), assume=None):
    """returns (text, unit, table) for all functions under contract for prop and the contracts they rely on"""
    cs, uses, syms = load_contracts(files)
    tr.set_families({k[4:]: tuple(v.split(',')) for k, v in syms.items() if k.startswith('fam:')})
    u = tr.Unit(p, cs, syms)
    u.snap = snap or {}
    u.globs = {k[5:]: v for k, v in syms.items() if k.startswith('glob:')}
    u.valuecls = set(valuecls)
    u.heapvals = {k[8:]: v for k, v in syms.items() if k.startswith('heapval:')}
    if 'tree.rs' in uses: u.need_fam('JSonElement')
    for k, v in syms.items():
        if k.startswith('types:'):
            for n in v.split():
                for r in p.records.values():
                    if r['n'] == n: u.struct(r['t'])
    todo = [m for m, c in u.contract_of.items() if (prop is None or prop in c.props) and not c.trusted]
    if only: todo = [m for m in todo if re.search(only, u.p.funcs[m]['name'])]
    done = {}; order = []; unsupported = []; deferred = set()
    primary = set(todo)
    while todo:
        m = todo.pop(0)
        if m in done: continue
        c = u.contract_of[m]; f = p.funcs[m]
        if m in exclude: done[m] = None; continue
        try:
            t = tr.FnTr(u, f, c)
            t.scc = set(u.contract_of)   # conservative: refined by the measure check
            t.scc = {m}
            nm, lines = t.run(smoke)
            done[m] = (nm, lines, t)
            order.append(m)
            if not only:
                for k in t.callees:
                    if k in p.funcs and k not in done and k in u.contract_of and not u.contract_of[k].trusted:
                        kc = u.contract_of[k]; w = kc.opts.get('proved_in')
                        for rx, where in (assume or {}).items():
                            if re.search(rx, p.funcs[k]['name']): w = where
                        if w and prop is not None and prop not in kc.props: deferred.add('contract of %s: proved by check %s, used here' % (p.funcs[k]['name'], w))
                        else: todo.append(k)
        except tr.Unsupported as e:
            done[m] = None
            unsupported.append((f['name'], c, str(e), m))
    # contracts that no longer attach to any function
    missing = [c for c in u.unattached if (prop is None or prop in c.props) and not c.opts.get('virtual')]
    out = ['#![allow(unused)]', 'use vstd::prelude::*;', 'verus! {']
    pre = open(os.path.join(VERIF, 'spec', 'prelude.rs')).read().split('\n')
    src = list(pre)
    for x in uses: src += ct.strlits(open(os.path.join(VERIF, 'spec', x)).read()).split('\n')
    out += [('#[verifier::spinoff_prover] ' + l if l.startswith('pub proof fn lem_') else l) for l in src]   # lemmas are independent: each has a solver of its own
    nspec = len(re.findall(r'^\s*pub (?:broadcast )?proof fn', '\n'.join(src), re.M)) - len(re.findall(r'external_body\]\s*\n?\s*pub (?:broadcast )?proof fn', '\n'.join(src)))
    axioms = re.findall(r'external_body\]\s*\n?\s*pub (?:broadcast )?proof fn (\w+)', '\n'.join(src))
    for s in u.struct_order:
        if u.structs.get(s): out += [l for l in u.structs[s].split('\n')]
    for s in u.specfns:
        if s not in src: out += s.split('\n')
    table = {}   # line -> (m, ob index)
    ranges = []
    for m in order:
        nm, lines, t = done[m]
        out.append('// ==== %s' % p.funcs[m]['name'])
        a = len(out) + 1
        for l in lines:
            out.append(l)
            k = re.search(r'//@OB:(\d+)$', l)
            if k: table[len(out)] = (m, int(k.group(1)) - 1)
            k = re.search(r'//@SMOKE:(\d+)$', l)
            if k: table[len(out)] = (m, 'smoke')
        ranges.append((a, len(out), m))
    if 'lits' in syms: out = opaque_lits(out)
    out += ['}', 'fn main() {}', '']
    r = Result()
    r.text = '\n'.join(out); r.unit = u; r.table = table; r.ranges = ranges; r.done = done; r.order = order; r.unsupported = unsupported; r.missing = missing
    r.primary = primary; r.nspec = nspec; r.axioms = [a for a in axioms if a not in ('nd',)]; r.prog = p; r.uses = uses; r.deferred = sorted(deferred)
    return r

def run_verus(path, rlimit=30, threads=8, timeout=800, extra=(), multiple=30):
    t0 = time.time()
    cmd = ['verus', path, '--crate-type=lib', '--multiple-errors', str(multiple), '--rlimit', str(rlimit), '--num-threads', str(threads), '--time', '--output-json'] + list(extra)
    env = dict(os.environ)
    try:
        q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=os.path.dirname(path))
        so, se, rc = q.stdout.decode(errors='replace'), q.stderr.decode(errors='replace'), q.returncode
    except subprocess.TimeoutExpired as e:
        so, se, rc = (e.stdout or b'').decode(errors='replace'), (e.stderr or b'').decode(errors='replace'), -9
    return cmd, rc, so, se, time.time() - t0

ERR = re.compile(r'^(error|note|warning)(\[E\d+\])?: (.*)$')
def parse_errors(se, fname):
    """[(message, [lines])]"""
    out = []; cur = None
    for l in se.split('\n'):
        m = ERR.match(l)
        if m:
            cur = None
            if m.group(1) == 'error': cur = (m.group(3) + (m.group(2) or ''), []); out.append(cur)
            continue
        m = re.match(r'^\s*--> .*?:(\d+):\d+', l)
        if m and cur is not None: cur[1].append(int(m.group(1))); continue
        m = re.match(r'^\s*(\d+)\s+\|', l)
        if m and cur is not None: cur[1].append(int(m.group(1)))
    return out
def judge(r, rc, so, se, fname):
    """status per obligation: discharged / failed / unknown; plus errors that are not obligations"""
    failed = {}; unknown = set(); other = []; specfail = []
    for msg, lines in parse_errors(se, fname):
        if msg.startswith('aborting') or 'previous error' in msg or msg.startswith('verification results'): continue
        hit = None
        for l in lines:
            if l in r.table: hit = r.table[l]; break
        isres = 'rlimit' in msg or 'Resource limit' in msg or 'timed out' in msg or 'solver' in msg.lower() and 'crash' in msg.lower()
        proof = re.match(r'(assertion failed|postcondition not satisfied|precondition not satisfied|invariant not satisfied|decreases not satisfied|possible arithmetic|assert_by|could not prove)', msg)
        if hit and not isres and proof:
            failed.setdefault(hit[0], {}).setdefault(hit[1], msg); continue
        fn = None
        for l in lines:
            for a, b, m in r.ranges:
                if a <= l <= b: fn = m
            if fn: break
        if fn:
            if isres: unknown.add(fn)
            else: other.append((r.prog.funcs[fn]['name'], msg, lines))
        elif isres: specfail.append((msg, lines))
        else: specfail.append((msg, lines))
    m = re.search(r'"verified":\s*(\d+)', so); 
    verified = int(m.group(1)) if m else None
    m = re.search(r'"errors":\s*(\d+)', so)
    errors = int(m.group(1)) if m else None
    return failed, unknown, other, specfail, verified, errors
