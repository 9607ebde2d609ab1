#!/usr/bin/env python3-vt
"""check.py PROPERTY  -- decides one property of /verif/properties.jsonl.

Extracts the harness translation units (which include the real sources of
/repo) to LLVM IR, generates the proof obligations of the contracts by symbolic
execution, discharges them, and replays failures against the natively compiled
code.  See DESIGN.md."""
import sys, os, re, json, time, random, shutil, signal, subprocess, traceback
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from engine import build, irparse, execir, prover, numeric, loops
from engine import terms as TM
from engine.props import PROPS

SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')

def harness_meta(path):
    """VP-USE lines: contracts used in place of callees"""
    uses = []
    opts = {}
    for l in open(path):
        m = re.match(r'//\s*VP-USE\s+(\S+)\s*:\s*(\S+)\s*=>\s*(\S+)', l)
        if m: uses.append((re.compile(m.group(1)), m.group(2), m.group(3)))
        m = re.match(r'//\s*VP-OPT\s+(\S+)\s*=\s*(.*)$', l)
        if m: opts[m.group(1)] = m.group(2).strip()
    return uses, opts

_mod = {}
def task(args):
    tu, llpath, hname, hpath, budget = args[:5]
    wall = args[5] if len(args) > 5 else budget + 100
    t0 = time.time()
    res = {'tu': tu, 'harness': hname, 'obl': [], 'error': None}
    def onalarm(sig, fr): raise TimeoutError('budget exceeded')
    try:
        signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(int(wall))
        m = _mod.get(llpath)
        if m is None:
            m = irparse.Module(open(llpath).read()); _mod[llpath] = m
        uses, opts = harness_meta(hpath)
        TM.Term._table.clear() if False else None
        pr = prover.Prover(ztime=float(opts.get('ztime', 10)), nftime=float(opts.get('nftime', 100)), seed=SEED)
        contracts = {}
        for rx, callee, con in uses:
            if rx.search(hname):
                if callee not in m.funcs and callee not in m.decls:
                    continue
                contracts[callee] = con
        import engine.models_ext
        inv = None
        for l in open(hpath):
            mm = re.match(r'//\s*VP-INV\s+(\S+)\s*:\s*(\S+)', l)
            if mm and re.search(mm.group(1), hname): inv = mm.group(2)
        pq = prover.Prover(ztime=float(opts.get('invtime', 2)), nftime=5, seed=SEED)
        term = re.search(opts['terminate'], hname) is not None if 'terminate' in opts else False
        if 'unroll' in opts and re.search(opts['unroll'], hname):
            ex = execir.Executor(m, oracle=pr.oracle, contracts=contracts)
        else:
            ex = loops.LoopExecutor(m, oracle=pr.oracle, contracts=contracts, prove=lambda o: (lambda r: r if r[0] == 'proved' else None)(pq.prove(o)), invfn=inv, terminate=term)
        ex.split = 'split' in opts and re.search(opts['split'], hname) is not None
        paths = ex.run_all(hname, maxpaths=int(opts.get('maxpaths', 3000)))
        res['exec_s'] = time.time() - t0
        res['paths'] = {}
        for p in paths: res['paths'][p.kind] = res['paths'].get(p.kind, 0) + 1
        if hasattr(ex, 'abs'): res['loops'] = len(ex.abs); res['invariants'] = sum(len([c for c in L.seen - L.dropped if c[0] != 'variant']) for L in ex.abs.values())
        res['steps'] = sum(p.steps for p in paths)
        res['memchecks'] = sum(p.nchecks for p in paths)
        seen = {}
        rng = random.Random(SEED * 7919 + hash(hname) % 1000003 if False else SEED * 7919 + sum(map(ord, hname)))
        covers = {}
        for p in paths:
            for c, k in p.covers: covers.setdefault(c, []).append((p.pc[:k], p.inputs))
        obs = []
        for p in paths:
            for o in p.obls: obs.append(o)
            if p.kind in ('throw', 'abort', 'unreachable') and not (p.kind in ('throw', 'abort') and p.kind + '_ok' in opts and re.search(opts[p.kind + '_ok'], hname)):
                o = execir.Obligation('no %s escapes the operation' % p.kind, 'fail', '%s %s' % (p.kind, p.info), None, p.pc, [])
                o.inputs = p.inputs; obs.append(o)
        budget_end = t0 + budget
        for o in obs:
            k = (o.label, o.kind, o.a if not isinstance(o.a, TM.Term) else o.a.id, o.b.id if isinstance(o.b, TM.Term) else None, tuple(f.id for f in o.pc))
            if k in seen: continue
            seen[k] = 1
            t1 = time.time()
            if t1 > budget_end:
                res['obl'].append({'label': o.label, 'status': 'unknown', 'backend': 'timeout', 'detail': 'harness budget exhausted', 'cands': [], 's': 0}); continue
            cands = []
            r = None
            env = None; hits = 0
            if o.kind in ('eq', 'le', 'lt', 'bool') and not o.opts.get('done') and not (o.kind == 'eq' and o.a is o.b):
                env, hits = numeric.falsify(o, rng, 12)
            if o.opts.get('done'): r = o.opts['done']
            elif env is not None:
                r = ('failed', 'evaluation', 'numerically violated'); cands.append(env)
            else:
                r = pr.prove(o)
                if r[0] != 'proved':
                    if o.kind != 'fail' or True:
                        e2, _ = numeric.falsify(o, rng, 3000)
                        if e2 is not None: cands.append(e2)
                    e3 = model_point(o)
                    if e3: cands.append(e3)
                    if o.kind == 'fail':
                        e4 = numeric.sat_point(o.pc, o.inputs, rng, 3000)
                        if e4: cands.append(e4)
            choices = {n: lo for (n, lo, hi, kk) in o.inputs if kk == 'C'}
            for c in cands: c.update(choices)
            res['obl'].append({'label': o.label, 'status': r[0], 'backend': r[1], 'detail': (o.a if o.kind == 'fail' else '') or r[2], 'where': o.where[-3:], 'cands': cands,
                               's': round(time.time() - t1, 3), 'implicit': bool(o.opts.get('implicit')) or o.kind == 'fail', 'kind': o.kind,
                               'claim': '' if r[0] == 'proved' else describe(o)})
        # vacuity: every cover point needs a concrete point satisfying its path
        res['covers'] = {}
        for c, ps in covers.items():
            ok = False
            for p in ps[:200]:
                if numeric.sat_point(p[0], p[1], rng, 400) is not None: ok = True; break
            if not ok:
                for p in ps[:20]:
                    s, mm = prover.z3_prove(p[0], TM.FALSE, 5)
                    if s is False: ok = True; break
            res['covers'][c] = ok
        names = [ex.demangled.get(n, n) for n in ex.called]
        src = [n for n in names if re.search(r'\bmiso::', n) and not n.startswith(('h_', 'contract_'))]
        res['functions'] = sorted(set(src))
        res['ext'] = sorted(set(ex.demangled.get(n, n) if not n.startswith('contract:') else n for n in ex.ext_used if not n.startswith('vp_')))
        res['stats'] = dict(prover.STATS)
        for kk in prover.STATS: prover.STATS[kk] = 0
        if 'constants' in opts: pass
    except Exception as e:
        res['error'] = '%s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()[-1500:]
    finally: signal.alarm(0)
    res['s'] = time.time() - t0
    return res

def describe(o):
    try:
        if o.kind == 'fail': return str(o.a)
        if o.b is None: return TM.show(o.a, 8)[:1500]
        return '%s  %s  %s' % (TM.show(o.a, 7)[:1500], {'eq': '==', 'le': '<=', 'lt': '<'}[o.kind], TM.show(o.b, 7)[:1500])
    except Exception as e: return repr(e)

def model_point(o):
    """inputs from a solver model of  pc and not goal"""
    try:
        k = o.kind
        goal = {'eq': lambda: TM.cmp('eq', o.a, o.b), 'le': lambda: TM.cmp('le', o.a, o.b), 'lt': lambda: TM.cmp('lt', o.a, o.b),
                'bool': lambda: o.a, 'fail': lambda: TM.FALSE}[k]()
        # a robust violation inside the sampling ranges first, any model otherwise
        r = None
        rng_ = [TM.cmp('le', TM.const(b[0]), TM.var(b[2])) if i == 0 else TM.cmp('le', TM.var(b[2]), TM.const(b[1])) for b in [(lo, hi, n) for (n, lo, hi, kk) in o.inputs if kk == 'R'] for i in (0, 1)]
        if k in ('eq', 'le', 'lt'):
            d = TM.sub(o.a, o.b); t = TM.const(0.01)
            weak = TM.cmp('le', d, t) if k != 'eq' else TM.band(TM.cmp('le', d, t), TM.cmp('le', TM.sub(o.b, o.a), t))
            r, m = prover.z3_prove(list(o.pc) + rng_, weak, 5, want_model=True)
        if r is not False: r, m = prover.z3_prove(list(o.pc) + rng_, goal, 5, want_model=True)
        if r is not False: r, m = prover.z3_prove(o.pc, goal, 5, want_model=True)
        if r is not False: return None
        env = {}
        d = {str(x): x for x in m.decls()}
        for (n, lo, hi, kk) in o.inputs:
            if kk == 'C': continue
            if n in d:
                v = m[d[n]]
                try:
                    env[n] = float(v.as_fraction()) if hasattr(v, 'as_fraction') else float(v.as_long())
                except Exception:
                    env[n] = float(v.approx(20).as_fraction())
            else: env[n] = lo if kk != 'R' else (0.0 if lo <= 0 <= hi else lo)
        return env
    except Exception:
        return None

def main():
    pid = sys.argv[1]
    t0 = time.time()
    P = PROPS[pid]
    work = os.path.join(HERE, '.work', '%s-%d' % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    try:
        rc = run(pid, P, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def compile_tu(a):
    h, src, out, defs = a
    try:
        build.emit_ir(h, src, out, defs); return None
    except Exception as e: return str(e)

def run(pid, P, work, t0):
    srcdir = os.path.join(work, 'src')
    build.mirror(srcdir)
    tus = P['tus']
    # TIER thorough: longer budgets
    budget = P.get('budget', 500) if TIER == 'quick' else 3000
    jobs = []
    with mp.Pool(8) as pool:
        args = [(os.path.join(HERE, 'harness', t + '.cpp'), srcdir, os.path.join(work, t + '.ll'), tuple(P.get('defs', ()))) for t in tus]
        errs = [e for e in pool.map(compile_tu, args) if e]
    if errs:
        print('ERROR extraction failed:\n' + '\n'.join(errs))
        rdir = os.path.join(HERE, 'replays', pid); os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, 'extraction.txt'); open(rp, 'w').write('the contracts of %s no longer fit the code: the extraction of the harness fails\n' % pid + '\n'.join(errs))
        write_evidence(pid, P, [], 0, 0, [], [rp], t0)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)); return 1
    rx = re.compile(P.get('harness', '.*'))
    for t in tus:
        ll = os.path.join(work, t + '.ll')
        names = re.findall(r'^define [^@]*@(h_\w+)\(', open(ll).read(), re.M)
        for n in names:
            if rx.search(n): jobs.append((t, ll, n, os.path.join(HERE, 'harness', t + '.cpp'), budget, 600 if TIER == 'quick' else 3200))
    if not jobs: print('ERROR no harness'); return 2
    jobs.sort(key=lambda j: -weight(j[2]))
    results = []
    with mp.Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(task, jobs): results.append(r)
    errors = [r for r in results if r['error']]
    fails = []
    for r in results:
        for o in r['obl']:
            if o['status'] != 'proved': fails.append((r, o))
        if r['error']:
            # the proof could not be redone on this code: reported as an undischarged obligation, after a native search for a failing input
            fails.append((r, {'label': '', 'status': 'failed', 'backend': 'engine', 'detail': r['error'] + '\n' + r.get('trace', ''), 'cands': [], 's': 0, 'kind': 'error', 'claim': 'all obligations of the harness', 'where': []}))
    vac = []
    for r in results:
        if r['error']: continue
        if not r['obl']: vac.append('%s generated no obligations' % r['harness'])
        if not r['covers'] : vac.append('%s reaches no cover point' % r['harness'])
        for c, ok in r['covers'].items():
            if not ok: vac.append('%s: cover %s not witnessed' % (r['harness'], c))
    known = load_known(pid)
    viol = []; knownhit = []; undecided = []
    if fails:
        viol, knownhit, undecided = triage(pid, P, work, fails, known)
    nobl = sum(len(r['obl']) for r in results); nok = sum(1 for r in results for o in r['obl'] if o['status'] == 'proved')
    # obligations of listed findings are excluded from both counts and reported
    write_evidence(pid, P, results, nobl, nok, knownhit, viol, t0)
    for r in errors: print('ERROR %s: %s\n%s' % (r['harness'], r['error'], r.get('trace', '')))
    for k in knownhit: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s: %d obligations, %d discharged, %d harnesses, %.1fs' % (pid, nobl, nok, len(results), time.time() - t0))
    if viol:
        for v in viol: print(v)
        return 1
    if undecided:
        print('ERROR undecided within the time limits: ' + '; '.join(undecided)); return 2
    if vac:
        print('ERROR vacuity: ' + '; '.join(vac)); return 2
    return 0

def weight(n):
    m = re.search(r'_(\d)\w*$', n)
    return int(m.group(1)) if m else 0

def load_known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith('{'): continue   # 'fixed:' lines suppress nothing
            d = json.loads(l)
            if d.get('property') == pid: out.append(d)
    return out

def triage(pid, P, work, fails, known):
    viol = []; hits = []; und = []
    bins = {}
    rdir = os.path.join(HERE, 'replays', pid)
    shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    groups = {}
    for r, o in fails: groups.setdefault((r['tu'], r['harness'], o['label']), []).append((r, o))
    tend = time.time() + 240
    # one report per harness+label; builds of a TU are shared
    items = sorted(groups.items())
    opts_of = {tu: harness_meta(os.path.join(HERE, 'harness', tu + '.cpp'))[1] for tu in set(k[0] for k in groups)}
    need = sorted(set(k[0] for k, _ in items))
    for tu in need:
        try:
            exe = os.path.join(work, 'n_' + tu)
            build.native(os.path.join(HERE, 'harness', tu + '.cpp'), exe, tuple(P.get('defs', ())) + ('-ftrivial-auto-var-init=pattern',) + P.get('native_flags', ()))
            bins[tu] = exe
        except Exception as e:
            bins[tu] = None; err = str(e)
    env = dict(os.environ)
    env.update({'OMPI_MCA_btl': 'self', 'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1', 'ASAN_OPTIONS': 'detect_leaks=0'})
    replayed = 0
    for (tu, h, label), lst in items:
        kf = [k for k in known if k['harness'] == h and k['label'] == label]
        if kf:
            hits.append(kf[0]); continue
        exe = bins.get(tu)
        conf = None
        env.pop('VP_THROW_OK', None)
        if any(k in opts_of[tu] and re.search(opts_of[tu][k], h) for k in ('throw_ok', 'abort_ok')): env['VP_THROW_OK'] = '1'
        out = ''
        if exe and replayed < 6 and time.time() < tend:
            cands = [c for r, o in lst for c in o['cands']][:6]
            tries = [('%s=%.17g' % kv for kv in c.items()) for c in cands]
            for t in tries:
                rc, out = runexe([exe, h, str(SEED), '1', label] + list(t), work, env)
                if rc == 1 or rc < 0 or rc in (134, 139): conf = (rc, out); break
            if conf is None:
                rc, out = runexe([exe, h, str(SEED), '20000', label], work, env)
                if rc == 1 or rc < 0: conf = (rc, out)
            if conf is None and any(o['kind'] == 'fail' for _, o in lst):
                conf = asan(tu, h, P, work, env, [c for r, o in lst for c in o['cands']][:4])
        rp = os.path.join(rdir, re.sub(r'\W+', '_', h + '__' + label)[:100] + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s\nharness %s (harness/%s.cpp)\nfailed obligation: %s\n' % (pid, h, tu, label))
            for r, o in lst[:3]:
                f.write('status %s by %s: %s\nin %s\nclaim: %s\n' % (o['status'], o['backend'], o['detail'], o.get('where'), o.get('claim')))
            if conf: f.write('\nNative replay on the real code (exit %d):\n%s\n' % conf)
            else: f.write('\nno failing input found natively\nlast output: %s\n' % out)
        if conf: replayed += 1
        stat = set(o['status'] for _, o in lst)
        viol.append((0 if conf else 1, 'VIOLATION property=%s replay=%s%s' % (pid, rp, '' if conf else ' no-failing-input-found')))
    viol.sort()
    return [v for _, v in viol], hits, und

def asan(tu, h, P, work, env, cands):
    try:
        exe = os.path.join(work, 'a_' + tu)
        if not os.path.exists(exe):
            build.native(os.path.join(HERE, 'harness', tu + '.cpp'), exe, tuple(P.get('defs', ())) + ('-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr'))
        for c in cands + [None]:
            a = [exe, h, str(SEED), '1' if c is not None else '500', ''] + (['%s=%.17g' % kv for kv in c.items()] if c else [])
            rc, out = runexe(a, work, env)
            if rc not in (0, 3): return rc, out[-3000:]
    except Exception as e:
        return None
    return None

def runexe(cmd, cwd, env):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=60)
        return p.returncode, (p.stdout + p.stderr)[-4000:]
    except subprocess.TimeoutExpired:
        return -99, 'native run did not terminate within 60 s'

TRUST = ['the LLVM IR symbolic executor and exact normal-form prover in /verif/engine', 'clang-18 front end (C++ -> LLVM IR -O0)', 'z3 4.x / cvc5 for the obligations they discharge',
         'doubles treated as mathematical reals; literals read as the simplest rational within 5e-16 (1.4 -> 7/5)',
         'every division, sqrt, log and pow in the code is applied inside its domain (exact where an obligation says so)']

def write_evidence(pid, P, results, nobl, nok, knownhit, viol, t0):
    st = {}
    fns = set(); ext = set(); covers = 0; mem = 0; steps = 0; paths = {}
    for r in results:
        for k, v in r.get('stats', {}).items(): st[k] = st.get(k, 0) + v
        fns |= set(r.get('functions', [])); ext |= set(r.get('ext', []))
        covers += sum(1 for c in r.get('covers', {}).values() if c)
        mem += r.get('memchecks', 0); steps += r.get('steps', 0)
        for k, v in r.get('paths', {}).items(): paths[k] = paths.get(k, 0) + v
    cov = {'obligations': nobl, 'discharged': nok, 'checker_cmd': 'python3-vt /verif/check.py ' + pid, 'trusted_base': TRUST + P.get('trust', []) + ['external/model: ' + e for e in sorted(ext)],
           'functions_under_contract': sorted(fns), 'backends': {k: st.get(k, 0) for k in ('const', 'nf', 'z3', 'cvc5')},
           'solver_seconds': {k: round(st.get(k + '_s', 0), 2) for k in ('nf', 'z3', 'cvc5')},
           'memory_accesses_checked': mem, 'instructions_executed': steps, 'paths': paths, 'preconditions_witnessed': covers,
           'harnesses': sorted(r['harness'] for r in results), 'bounded_stand_ins': P.get('bounded', []),
           'known_findings': [k['what'] for k in knownhit]}
    if P.get('level', 'proof') != 'proof': cov['explanation'] = P.get('explanation', '')
    ev = {'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': P.get('level', 'proof'), 'coverage': cov,
          'assumptions': P.get('assume', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)

if __name__ == '__main__': main()
