#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current tree.
1. export the C++ (clang AST) and translate every function under contract for the property to proof obligations;
2. discharge them with Verus/Z3; 3. run the replay driver built from /repo's sources (bounded complement, and the
search for a failing input when an obligation fails); 4. write evidence/<id>.json."""
import os, re, sys, json, time, shutil, subprocess, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prog, gen, tr
from prog import VERIF, REPO
from props import PROPS

SEED = int(os.environ.get('VERIF_SEED', '1')); TIER = os.environ.get('VERIF_TIER', 'quick')
FLAGS = ['-std=gnu++17', '-O1', '-g1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer',
         '-I' + REPO + '/include', '-I' + os.path.join(VERIF, 'replay')]

def known(pid):
    """findings recorded in known_findings.txt: lines  'finding: property=<id> key=<key> <text>'"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^finding: property=(\S+) key=(\S+) (.*)$', l.strip())
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out

def build_driver(pid, cfg, work):
    """compile /repo's sources and the driver with sanitizers; returns (exe or None, message)"""
    drv = os.path.join(VERIF, 'replay', cfg.get('driver', pid + '.cpp'))
    if not os.path.exists(drv): return None, 'no driver'
    srcs = cfg.get('sources')
    if srcs is None: srcs = [os.path.basename(x) for x in glob.glob(REPO + '/src/*.cpp') if os.path.basename(x) != 'main.cpp']
    flags = FLAGS + cfg.get('flags', [])
    def cc(s):
        o = os.path.join(work, os.path.basename(s) + '.o')
        q = subprocess.run(['g++'] + flags + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return o, q.returncode, q.stdout.decode(errors='replace')
    files = [drv] + [os.path.join(REPO, 'src', s) for s in srcs if os.path.exists(os.path.join(REPO, 'src', s))] + \
            [os.path.join(VERIF, 'replay', x) for x in cfg.get('stubs', [])]
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(cc, files))
    for o, rc, msg in rs:
        if rc: return None, 'driver does not compile: ' + msg[-1500:]
    exe = os.path.join(work, 'drv')
    q = subprocess.run(['g++'] + flags + [x[0] for x in rs] + ['-o', exe] + cfg.get('libs', ['-lncursesw', '-ltinfo']), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if q.returncode: return None, 'driver does not link: ' + q.stdout.decode(errors='replace')[-1500:]
    return exe, ''

def run_driver(exe, work, seconds, pid, seed=None):
    """(found?, report text, evaluations, samples)"""
    env = dict(os.environ); env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1'; env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=77'
    env.setdefault('LC_ALL', 'C.UTF-8')
    scratch = os.path.join(work, 'scratch'); os.makedirs(scratch, exist_ok=True)
    rep = os.path.join(work, 'found.txt')
    if os.path.exists(rep): os.remove(rep)
    try:
        q = subprocess.run([exe, str(SEED if seed is None else seed), str(seconds), rep], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=seconds + 60, env=env, cwd=scratch)
        out, rc = q.stdout.decode(errors='replace'), q.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b'').decode(errors='replace') + '\nthe driver did not end in time', 99
    ev = 0; samples = []
    m = re.search(r'^EVALS (\d+) (\d+)', out, re.M)
    if m: ev = (int(m.group(1)), int(m.group(2)))
    samples = re.findall(r'^SAMPLE (.*)$', out, re.M)[:5]
    if rc == 0: return False, out, ev, samples
    if rc == 99: return False, out, ev, samples      # no verdict
    txt = ''
    if os.path.exists(rep): txt = open(rep, errors='replace').read()
    if rc == 3: return False, 'driver cannot run here: ' + out[-500:], ev, samples
    return True, txt + '\n---- driver output ----\n' + out[-6000:], ev, samples

def main():
    pid = sys.argv[1]; cfg = PROPS[pid]; t0 = time.time()
    build = os.path.join(VERIF, 'build'); os.makedirs(build, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='chk-%s-' % pid, dir=build)
    try: rc = check(pid, cfg, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def prove(pid, cfg, work, log):
    """returns dict with the state of every obligation"""
    res = dict(functions=[], obligations=0, discharged=0, failed=[], unknown=[], bounded=[], assumptions=set(), trusted=[], cmd='', solver_s=0.0, vacuous=[], error=None, axioms=[], specs=0)
    try:
        p = gen.load_program(work)
    except Exception as e:
        res['error'] = 'export: %s' % str(e)[:600]; return res
    snapf = os.path.join(VERIF, 'contracts', 'names.json')
    snap = json.load(open(snapf)) if os.path.exists(snapf) else {}
    excl = {}
    for attempt in range(6):
        try: r = gen.build(p, cfg['ct'], pid, valuecls=cfg.get('valuecls', ()), snap=snap, exclude=excl, assume=cfg.get('assume'))
        except Exception as e:
            import traceback
            res['error'] = 'translation: %s' % (traceback.format_exc()[-900:]); return res
        f = os.path.join(work, pid + '.rs'); open(f, 'w').write(r.text)
        cmd, rc, so, se, t = gen.run_verus(f, rlimit=cfg.get('rlimit', 60), timeout=cfg.get('timeout', 500), extra=cfg.get('extra', []))
        failed, unknown, other, spec, ver, err = gen.judge(r, rc, so, se, f)
        res['solver_s'] += t; res['cmd'] = ' '.join(cmd).replace(work, 'build/<run>')
        if rc != -9 and not ver and not failed and (other or spec):
            # the generated text is refused by the front end: the functions concerned leave the proof
            names = {m for a, b, m in r.ranges for o in other for l in o[2] if a <= l <= b}
            if not names and spec:
                # a contract clause no longer types: find the contract whose spec functions are named
                L = r.text.split('\n')
                for msg, lines in spec:
                    for l in lines:
                        for m, inf in r.unit.ckeys.items():
                            if l <= len(L) and inf['K'] in L[l - 1]: names.add(m)
            if not names: res['error'] = 'generated text refused: %s' % (spec[:2] or other[:2],); return res
            for m in names: excl[m] = 'the contract no longer fits the function: %s' % (other or spec)[0][1 if other else 0]
            continue
        break
    else:
        res['error'] = 'the contracts do not fit this tree'; return res
    if rc == -9 or err is None:
        res['error'] = 'verifier gave no answer (%s)' % ('time' if rc == -9 else se[-400:]); return res
    # a second, larger effort for functions the solver gave up on
    res['prog'] = p; res['r'] = r
    spec_bad = [m for m, l in spec]
    for m in r.order:
        nm, lines, t = r.done[m]
        fn = r.prog.funcs[m]; c = r.unit.contract_of[m]
        res['functions'].append('%s (%s:%d)' % (fn['name'], fn['file'].replace(REPO + '/', ''), fn['line']))
        n = len(t.obs); res['obligations'] += n
        bad = {k: v for k, v in failed.get(m, {}).items() if k != 'smoke'}
        if m in unknown:
            res['unknown'].append(fn['name']); res['discharged'] += 0
            if not bad: continue
        res['discharged'] += n - len(bad) if m not in unknown else 0
        for k, msg in sorted(bad.items()):
            o = t.obs[k]
            res['failed'].append(dict(m=m, fn=o.fn, line=o.line, kind=o.kind, desc=o.desc, tags=o.tags, msg=msg, props=c.props, file=fn['file']))
    res['obligations'] += r.nspec; res['discharged'] += r.nspec - len(spec_bad)
    res['specs'] = r.nspec
    for nm, c, why, m in r.unsupported:
        res['bounded'].append('%s: %s' % (nm, why))
    for c in r.missing: res['bounded'].append('%s: no such function in this tree' % c.name)
    for m, why in excl.items(): 
        if not any(x.startswith(p.funcs[m]['name'] + ':') for x in res['bounded']): res['bounded'].append('%s: %s' % (p.funcs[m]['name'], why))
    res['assumptions'] = set(r.unit.assumptions)
    res['trusted'] = sorted({'%s: %s' % (c.name, c.trusted) for c in r.unit.contract_of.values() if c.trusted and any(r.unit.contract_of[k] is c for m in r.order for k in r.done[m][2].callees if k in r.unit.contract_of)})
    res['trusted'] += r.deferred
    res['axioms'] = r.axioms
    res['inlined'] = sorted(r.unit.inlined)
    res['spec_failed'] = spec_bad
    # vacuity guard: with an unprovable assertion at every exit each function must be refused
    if not failed and not unknown:
        rs = gen.build(p, cfg['ct'], pid, smoke=True, valuecls=cfg.get('valuecls', ()), snap=snap, exclude=excl)
        f2 = os.path.join(work, pid + '_smoke.rs'); open(f2, 'w').write(rs.text)
        cmd2, rc2, so2, se2, t2 = gen.run_verus(f2, rlimit=cfg.get('smoke_rlimit', 10), timeout=240, extra=cfg.get('extra', []), multiple=1)
        fl, un, ot, sp, v2, e2 = gen.judge(rs, rc2, so2, se2, f2)
        res['solver_s'] += t2
        for m in rs.order:
            if rc2 == -9: res['smoke'] = 'no answer'; break
            if rs.done[m][2].nexits and m not in un and 'smoke' not in fl.get(m, {}): res['vacuous'].append(p.funcs[m]['name'])
    return res

def check(pid, cfg, work, t0):
    log = []
    with ThreadPoolExecutor(2) as ex:
        fp = ex.submit(prove, pid, cfg, work, log)
        fd = ex.submit(build_driver, pid, cfg, work)
        res = fp.result(); exe, dmsg = fd.result()
    viol = []
    prim = [f for f in res['failed'] if pid in f['props'] and (not f['tags'] or pid in f['tags'])]
    if prim:
        viol.append(prim)
    # bounded complement / search for a failing input
    found = False; dtext = ''; ev = 0; samples = []
    if exe:
        secs = cfg.get('thorough_s', 120) if TIER == 'thorough' else cfg.get('quick_s', 12)
        if prim or res['bounded'] or res['error'] or res['unknown']: secs = max(secs, cfg.get('search_s', 60))
        found, dtext, ev, samples = run_driver(exe, work, secs, pid)
        if not found and prim:
            f2, d2, e2, s2 = run_driver(exe, work, secs, pid, SEED + 1000)
            if f2: found, dtext = f2, d2
    kf = known(pid)
    keys = set(re.findall(r'^KNOWN (\S+)', dtext, re.M)) if dtext else set()
    nviol = 0
    rdir = os.path.join(VERIF, 'build', 'replay'); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, '%s.txt' % pid)
    for k in kf: print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]))
    if found or prim:
        nviol = max(1, len(prim))
        with open(rp, 'w') as o:
            o.write('property %s\n' % pid)
            for f in prim: o.write('failed obligation: %s, %s:%d, %s: %s [%s]\n' % (f['fn'], f['file'], f['line'], f['kind'], f['desc'], f['msg']))
            if found: o.write('---- failing input against the real code ----\n' + dtext)
            else: o.write('no failing input found by the replay driver (%s)\n%s\n' % (dmsg or 'evaluations %s' % (ev,), res['cmd']))
    # evidence
    tb = ['verus 0.2026.09.13 and z3 (the solver behind it)', 'clang 18 front end and extractor/export.cpp (AST export)', 'vc/tr.py and vc/lib.py: meaning given to C++ statements and to the standard library calls',
          'spec/prelude.rs machine model'] + ['axiom ' + a for a in res['axioms']] + ['trusted contract ' + t for t in res['trusted']]
    cov = dict(obligations=res['obligations'], discharged=res['discharged'], checker_cmd=res['cmd'] or 'verus (not reached)', trusted_base=tb,
               functions_under_contract=res['functions'], inlined_functions=res.get('inlined', []), specification_lemmas=res['specs'], solver_and_verifier_s=round(res['solver_s'], 2),
               failed_obligations=['%s:%d %s: %s' % (f['fn'], f['line'], f['kind'], f['desc']) for f in res['failed']],
               undecided_functions=res['unknown'], vacuous_functions=res['vacuous'],
               bounded_functions=res['bounded'] + cfg.get('bounded', []))
    if res['error']: cov['proof_not_available'] = res['error']
    if exe: cov['bounded_complement'] = dict(evaluations=ev[0] if ev else 0, distinct_nontrivial=ev[1] if ev else 0, rule=cfg.get('rule', ''), samples=samples, found=found)
    else: cov['bounded_complement'] = dict(evaluations=0, note=dmsg)
    j = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=cfg.get('level', 'proof'), coverage=cov,
             assumptions=sorted(res['assumptions']) + cfg.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=nviol)
    json.dump(j, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d functions under contract, %d/%d obligations discharged, %d failed, undecided %s, bounded %d, driver %s %s, %.1fs' % (
        pid, len(res['functions']), res['discharged'], res['obligations'], len(res['failed']), res['unknown'], len(res['bounded']), ev, 'FOUND' if found else 'quiet', time.time() - t0))
    for b in res['bounded']: print('  bounded:', b)
    if res['error']: print('  proof not available:', res['error'])
    if res['vacuous']: print('  VACUOUS:', res['vacuous'])
    for f in res['failed']: print('  failed: %s:%d %s: %s %s' % (f['fn'], f['line'], f['kind'], f['desc'], '' if f in prim else '(other property)'))
    if dmsg and not exe: print('  ' + dmsg)
    if found: print(dtext[:1500])
    if nviol:
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if found else ' no-failing-input-found'))
        return 1
    return 0
main()
